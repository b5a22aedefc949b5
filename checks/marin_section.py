"""C08: Marin integration of sections."""

from fractions import Fraction as F

from symx import geo
from symx.harness import harness

OUT = (
    'shapely (stand-in symx/geo.py, compared with the real library at the '
    'witness of every path); floating point rounding; other outlines and '
    'laws'
)

RECT = [(-150, -250), (150, -250), (150, 250), (-150, 250)]
TEE = [
    (-50, -300), (50, -300), (50, 100), (300, 100), (300, 200), (-300, 200),
    (-300, 100), (-50, 100),
]
YOU = [
    (-200, -200), (200, -200), (200, 200), (120, 200), (120, -100),
    (-120, -100), (-120, 200), (-200, 200),
]
TRI = [(-100, -80), (240, -10), (30, 310)]
HOLE = [(-60, -90), (60, -90), (40, 70)]
OUTLINES = {
    'rectangle': (RECT, ()), 'tee': (TEE, ()), 'u': (YOU, ()),
    'triangle': (TRI, ()), 'hole': (RECT, (HOLE,)),
}


# --- laws: (constructor, [(eps1, eps2, stress coefficients)]) by increasing
# strain; outside all intervals the stress is zero
def L():
    import structuralcodes.materials.constitutive_laws as q

    return q


def law_elastic():
    return L().Elastic(30000), [(None, None, [0, 30000])]


def law_parabola():
    # sigma = fc*(1-(1-e/e0)^2) with fc=-20, e0=-0.002, plateau to -0.0035
    return (
        L().ParabolaRectangle(20, eps_0=-0.002, eps_u=-0.0035),
        [
            (F(-35, 10000), F(-2, 1000), [-20]),
            (F(-2, 1000), 0, [0, 20000, 5000000]),
        ],
    )


def law_bilinear():
    return (
        L().BilinearCompression(fc=20, eps_c=-0.002, eps_cu=-0.0035),
        [
            (F(-35, 10000), F(-2, 1000), [-20]),
            (F(-2, 1000), 0, [0, 10000]),
        ],
    )


def law_plastic():
    # hardening: E=200000, fy=400, Eh=1000, eps_su=0.02
    e, y, u = 200000, F(400, 200000), F(2, 100)
    h = 1000
    return (
        L().ElasticPlastic(E=e, fy=400, Eh=h, eps_su=0.02),
        [
            (-u, -y, [-400 + h * y, h]),
            (-y, y, [0, e]),
            (y, u, [400 - h * y, h]),
        ],
    )


def law_plastic2():
    # as law_plastic with another strength, the name is the same
    e, y, u = 200000, F(300, 200000), F(2, 100)
    return (
        L().ElasticPlastic(E=e, fy=300, Eh=1000, eps_su=0.02),
        [
            (-u, -y, [-300 + 1000 * y, 1000]),
            (-y, y, [0, e]),
            (y, u, [300 - 1000 * y, 1000]),
        ],
    )


def law_user():
    # asymmetric polyline through the origin
    xs = [F(-3, 1000), F(-1, 1000), 0, F(1, 1000), F(4, 1000)]
    ys = [-30, -20, 0, 2, 1]
    pcs = []
    for x0, x1, y0, y1 in zip(xs, xs[1:], ys, ys[1:]):
        k = (y1 - y0) / (x1 - x0)
        pcs.append((x0, x1, [y0 - k * x0, k]))
    return L().UserDefined([float(x) for x in xs], ys), pcs


def law_initial():
    # elastic-plastic law with an initial strain of 0.001
    base, pcs = law_plastic()
    s = F(1, 1000)
    out = []
    for a, b, (c0, c1) in pcs:
        out.append((a - s, b - s, [c0 + c1 * s, c1]))
    return L().InitialStrain(base, 0.001), out


LAWS = {
    'elastic': law_elastic, 'parabola': law_parabola,
    'bilinear': law_bilinear, 'plastic': law_plastic, 'user': law_user,
    'initial': law_initial,
}
BAR_LAWS = {**LAWS, 'plastic2': law_plastic2}


def poly(cs, e):
    t = 0
    for k in reversed(cs):
        t = t * e + k
    return t


def deriv(cs):
    return [k * c for k, c in enumerate(cs)][1:] or [0]


# exact on triangles for polynomials of degree 3
def tri_int(a, b, c, f):
    A = ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) / 2
    third = F(1, 3)
    g = tuple((a[k] + b[k] + c[k]) * third for k in (0, 1))
    w, v = F(3, 5), F(1, 5)
    t = [F(-9, 16) * q for q in f(g)]
    for p in (
        tuple(w * a[k] + v * b[k] + v * c[k] for k in (0, 1)),
        tuple(v * a[k] + w * b[k] + v * c[k] for k in (0, 1)),
        tuple(v * a[k] + v * b[k] + w * c[k] for k in (0, 1)),
    ):
        t = [x + F(25, 48) * y for x, y in zip(t, f(p))]
    return [A * x for x in t]


def poly_int(r, f):
    tot = None
    for i in range(1, len(r) - 1):
        t = tri_int(r[0], r[i], r[i + 1], f)
        tot = t if tot is None else [x + y for x, y in zip(tot, t)]
    return tot


def half(r, dist):
    """Part of a convex ring where dist >= 0."""
    out = []
    ds = [dist(v) for v in r]
    sg = [1 if bool(d > 0) else (-1 if bool(d < 0) else 0) for d in ds]
    for i in range(len(r)):
        j = (i + 1) % len(r)
        if sg[i] >= 0:
            out.append(r[i])
        if sg[i] * sg[j] < 0:
            t = ds[i] / (ds[i] - ds[j])
            out.append(tuple(
                r[i][k] + t * (r[j][k] - r[i][k]) for k in (0, 1)
            ))
    return out


def convex_parts(outline):
    """Signed convex polygons that make up the outline."""
    ext, holes = outline
    parts = {
        'tee': [
            [(-50, -300), (50, -300), (50, 100), (-50, 100)],
            [(-300, 100), (300, 100), (300, 200), (-300, 200)],
        ],
        'u': [
            [(-200, -200), (200, -200), (200, -100), (-200, -100)],
            [(-200, -100), (-120, -100), (-120, 200), (-200, 200)],
            [(120, -100), (200, -100), (200, 200), (120, 200)],
        ],
    }
    for k, v in parts.items():
        if OUTLINES[k][0] is ext:
            return [(1, p) for p in v]
    return [(1, ext)] + [(-1, h) for h in holes]


def surface_resultants(parts, pieces, e0, ky, kz, modulus):
    def eps(v):
        return e0 + ky * v[1] - kz * v[0]

    n = 6 if modulus else 3
    tot = [0] * n
    for a, b, cs in pieces:
        q = deriv(cs) if modulus else cs

        def f(v, q=q):
            s = poly(q, eps(v))
            if modulus:
                return [s, s * v[1], -s * v[0], s * v[1] * v[1],
                        -s * v[0] * v[1], s * v[0] * v[0]]
            return [s, s * v[1], -s * v[0]]

        for sign, r in parts:
            if a is not None:
                r = half(r, lambda v, a=a: eps(v) - a)
            if b is not None and len(r) > 2:
                r = half(r, lambda v, b=b: b - eps(v))
            if len(r) < 3:
                continue
            t = poly_int(r, f)
            tot = [x + sign * y for x, y in zip(tot, t)]
    return tot


def bar_resultants(c, bars, e0, ky, kz, modulus):
    """bars: (x, y, area, pieces)."""
    n = 6 if modulus else 3
    tot = [0] * n
    for x, y, A, pcs in bars:
        e = e0 + ky * y - kz * x
        s = 0
        for a, b, cs in pcs:
            # away from the ends, where scalar and tangent jump
            for lim in (a, b):
                if lim is not None:
                    c.assume(abs(e - lim) >= 2e-6)
            if (a is None or bool(e > a)) and (b is None or bool(e < b)):
                s = poly(deriv(cs) if modulus else cs, e)
        s = s * A
        w = [s, s * y, -s * x]
        if modulus:
            w += [s * y * y, -s * x * y, s * x * x]
        tot = [p + q for p, q in zip(tot, w)]
    return tot


def plain(ring):
    return [tuple(float(x) if isinstance(x, F) else x for x in v)
            for v in ring]


def make(c, surfaces, bars):
    """Section of surfaces [(outline, law)] and bars [(x, y, d, law)]."""
    from structuralcodes.geometry import CompoundGeometry, SurfaceGeometry
    from structuralcodes.geometry import PointGeometry
    from structuralcodes.materials.basic import GenericMaterial

    G = geo.lib(c)
    gs = []
    for (ext, holes), law in surfaces:
        gs.append(SurfaceGeometry(
            G.Polygon(plain(ext), [plain(h) for h in holes]),
            GenericMaterial(2500, law),
        ))
    mats = {}
    for x, y, d, law in bars:
        mt = mats.setdefault(id(law), GenericMaterial(7850, law))
        gs.append(PointGeometry((x, y), d, mt))
    return CompoundGeometry(gs)


DIRS = {'y': (1, 0), 'z': (0, 1), 'yz': (F(3, 5), F(4, 5)), 'none': (0, 0)}
# 5 and 0.05 milliradians from the axes
NEAR = {
    'near y': (F(159999, 160001), F(800, 160001)),
    'near z': (F(-800, 160001), F(159999, 160001)),
    'nearer y': (F(1599999999, 1600000001), F(-80000, 1600000001)),
}
FORCES = ('N', 'My', 'Mz')
STIFF = ('NN', 'Ny', 'Nz', 'yy', 'yz', 'zz')


def strain_of(c, kind, span=0.004, ks=(1e-7, 3e-5)):
    e0 = c.real('e0', -span, span)
    k = 0
    if kind != 'none':
        k = c.real('k', *ks) * c.choice('sign', [1, -1])
    a, b = DIRS.get(kind) or NEAR[kind]
    return e0, a * k, b * k


def clear_limits(c, laws, strain, bars, kind):
    """Strains of bars and uniform strains away from kinks and limits."""
    e0, ky, kz = strain
    es = [e0 + ky * y - kz * x for x, y, *_r in bars]
    if kind == 'none':
        es = [e0]
    for _law, pcs in laws.values():
        for a, b, _cs in pcs:
            for lim in (a, b):
                if lim is not None:
                    for e in es:
                        c.assume(abs(e - lim) >= 2e-6)


def compare(c, what, got, want, modulus, tol=None):
    if not modulus:
        for n, g, w in zip(FORCES, got, want):
            c.eq(f'{what}{n}', g, w,
                 atol=tol or (1e-3 if n == 'N' else 1.0))
        return
    k = got
    g = [k[0, 0], k[0, 1], k[0, 2], k[1, 1], k[1, 2], k[2, 2]]
    scale = {'NN': 1.0, 'Ny': 1e3, 'Nz': 1e3}
    for n, a, w in zip(STIFF, g, want):
        c.eq(f'{what}stiffness {n}', a, w, atol=tol or scale.get(n, 1e5))
    for i, j in ((0, 1), (0, 2), (1, 2)):
        c.eq(f'{what}stiffness symmetric {i}{j}', k[i, j], k[j, i],
             atol=tol or 1e3)


def section(c, surfaces, bars, integrator='marin'):
    from structuralcodes.sections import GenericSection

    g = make(c, surfaces, bars)
    return g, GenericSection(g, integrator=integrator)


def run(c, names, bar_laws, kind, modulus, span=0.004, ks=(1e-7, 3e-5),
        tol=None):
    """names: [(outline, law)]; bar_laws: [[x, y, d, law], ...]."""
    cache = {n: LAWS[n]() for _o, n in names}
    for *_x, n in bar_laws:
        if n not in cache:
            cache[n] = BAR_LAWS[n]()
    g, sec = section(
        c, [(OUTLINES[o], cache[n][0]) for o, n in names],
        [(x, y, d, cache[n][0]) for x, y, d, n in bar_laws],
    )
    e0, ky, kz = strain_of(c, kind, span, ks)
    if kind == 'none':
        # a whole surface exactly at a kink has no unique tangent
        for _law, pcs in cache.values():
            for a, b, _cs in pcs:
                for lim in (a, b):
                    if lim is not None:
                        c.assume(abs(e0 - lim) >= 2e-6)
    mode = 'modulus' if modulus else 'stress'

    def want(e0, ky, kz):
        tot = bar_resultants(
            c, [(p.x, p.y, p.area, cache[b[3]][1])
                for p, b in zip(g.point_geometries, bar_laws)],
            e0, ky, kz, modulus,
        )
        for o, n in names:
            t = surface_resultants(
                convex_parts(OUTLINES[o]), cache[n][1], e0, ky, kz, modulus
            )
            tot = [x + y for x, y in zip(tot, t)]
        return tot

    calc = sec.section_calculator
    got = calc.integrate_strain_profile([e0, ky, kz], mode)
    compare(c, '', got, want(e0, ky, kz), modulus, tol)
    if bar_laws:
        # again, with the bars kept from the first call
        s2 = (F(-1, 10000), F(-3, 10**7), F(1, 10**7))
        got = calc.integrate_strain_profile([float(x) for x in s2], mode)
        compare(c, 'second call: ', got, want(*s2), modulus, tol)


B = (
    'every axial strain in +-0.004 and curvature in +-3e-5 about y, about z, '
    'about an axis with tangent 4/3, and none'
)


@harness('C08', 'one surface', params=[
    dict(outline=o, law=n, axis=a) for a in DIRS
    for o in ('rectangle', 'triangle') for n in LAWS
    if (n == 'parabola' or o == 'rectangle') and (n, a) not in (('user', 'yz'), ('bilinear', 'yz'))
], bounds=B, stubs=['shapely'], outside=OUT, budget=100)
def one_surface(c, outline, law, axis):
    mode = c.choice('modulus', [False, True])
    run(c, [(outline, law)], [], axis, mode)


@harness('C08', 'one surface, more', params=[
    dict(outline=o, law=n, axis=a, modulus=m) for a in ('y', 'z', 'yz')
    for o in ('rectangle', 'triangle') for n in ('parabola', 'user', 'plastic')
    for m in (False, True)
    if o == 'triangle' and n != 'parabola' or (n, a) == ('user', 'yz')
], bounds=B, stubs=['shapely'], outside=OUT, budget=400, tier='thorough')
def one_surface_more(c, outline, law, axis, modulus):
    run(c, [(outline, law)], [], axis, modulus)


@harness('C08', 'nonconvex or with a hole', params=[
    dict(outline=o, axis=a) for a in DIRS for o in ('tee', 'u', 'hole')
    if (o, a) != ('u', 'yz')
], bounds=B + '; bilinear law (elastic-plastic about the inclined axis, there only tee and hole, tee the stress only)',
    stubs=['shapely'], outside=OUT, budget=100)
def nonconvex(c, outline, axis):
    mode = False
    if axis != 'yz' or outline == 'hole':
        mode = c.choice('modulus', [False, True])
    run(c, [(outline, 'plastic' if axis == 'yz' else 'bilinear')], [], axis,
        mode)


@harness('C08', 'nonconvex or with a hole, inclined', params=[
    dict(outline=o, modulus=m) for o in ('tee', 'u', 'hole')
    for m in (False, True)
], bounds=B + '; bilinear law', stubs=['shapely'], outside=OUT, budget=400,
    tier='thorough')
def nonconvex_inclined(c, outline, modulus):
    run(c, [(outline, 'bilinear')], [], 'yz', modulus)


BARS1 = [(-100, -200, 20, 'plastic'), (100, -200, 16, 'plastic'),
         (0, 210, 12, 'plastic')]
BARS3 = [(-100, -200, 20, 'plastic'), (100, -200, 20, 'plastic2'),
         (100, 200, 12, 'plastic')]
BARS2 = [(-100, -200, 20, 'plastic'), (100, -200, 20, 'initial'),
         (100, 200, 12, 'plastic')]


@harness('C08', 'reinforced', params=[
    dict(bars=b, axis=a) for a in DIRS
    for b in ('one material', 'two materials', 'two strengths',
              'single bar')
], bounds=B + '; rectangle of elastic material with three bars (one or two '
    'materials) or one bar; two calls on the same section',
    stubs=['shapely'], outside=OUT, budget=100)
def reinforced(c, bars, axis):
    mode = c.choice('modulus', [False, True])
    run(c, [('rectangle', 'elastic')], {
        'one material': BARS1, 'two materials': BARS2, 'two strengths': BARS3,
        'single bar': BARS1[1:2],
    }[bars], axis, mode)


@harness('C08', 'two surfaces', params=[dict(axis=a) for a in DIRS], bounds=B + '; rectangle and triangle of '
         'different materials', stubs=['shapely'], outside=OUT, budget=100)
def two_surfaces(c, axis):
    mode = c.choice('modulus', [False, True])
    run(c, [('rectangle', 'bilinear'), ('triangle', 'elastic')], [], axis,
        mode)


@harness('C08', 'nearly parallel to an axis', params=[
    dict(outline=o, axis=a) for a in NEAR for o in ('rectangle', 'triangle')
], bounds='every axial strain in +-0.004 and curvature in +-3e-5 about axes '
    'at 5 or 0.05 milliradians from y or z; elastic surface, three bars',
    stubs=['shapely'], outside=OUT, budget=100)
def nearly_parallel(c, outline, axis):
    mode = c.choice('modulus', [False, True])
    run(c, [(outline, 'elastic')], BARS1[:2], axis, mode)


@harness('C08', 'small curvatures', params=[
    dict(outline=o, law=n) for o in ('rectangle', 'triangle')
    for n in ('elastic', 'plastic')
], bounds='axial strain in +-1e-8, curvature of 1e-12 to 1e-7 about y, z or '
    'an axis with tangent 4/3; two bars', stubs=['shapely'], outside=OUT,
    budget=100)
def small_curvatures(c, outline, law):
    axis = c.choice('axis', ['y', 'z', 'yz'])
    mode = c.choice('modulus', [False, True])
    run(c, [(outline, law)], BARS1[:2], axis, mode, 1e-8, (1e-12, 1e-7),
        None if mode else 1e-3)


def metres(name):
    ext, holes = OUTLINES[name]
    return ([tuple(F(x) / 1000 for x in v) for v in ext],
            [[tuple(F(x) / 1000 for x in v) for v in h] for h in holes])


for _n in ('rectangle', 'triangle'):
    OUTLINES[_n + ' m'] = metres(_n)
BARS_M = [(-0.1, -0.2, 0.02, 'plastic'), (0.1, -0.2, 0.016, 'plastic'),
          (0, 0.21, 0.012, 'plastic')]


@harness('C08', 'dimensions in metres', params=[
    dict(outline=o, law=n, axis=a) for a in ('y', 'z')
    for o, n in (('rectangle', 'bilinear'), ('rectangle', 'user'),
                 ('triangle', 'bilinear'))
], bounds='dimensions of some decimetres given in metres, axial strain in '
    '+-0.004, curvature of 1e-4 to 0.03 per metre, two bars',
    stubs=['shapely'], outside=OUT, budget=100)
def in_metres(c, outline, law, axis):
    mode = c.choice('modulus', [False, True])
    run(c, [(outline + ' m', law)], BARS_M[:2] if law == 'user' else [],
        axis, mode, 0.004, (1e-4, 0.03), 1e-7)
