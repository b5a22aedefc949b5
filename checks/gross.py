"""C16: gross section properties."""

from fractions import Fraction as F

from symx import geo, m
from symx.harness import harness

from ._sec import moments

OUT = (
    'shapely (stand-in symx/geo.py, compared with the real library at the '
    'witness of every path); floating point rounding; the fiber integrator '
    '(C09 ties it to its mesh)'
)


def law(E, kind='elastic'):
    import structuralcodes.materials.constitutive_laws as q

    if kind == 'elastic':
        return q.Elastic(E)
    return q.ElasticPlastic(E=E, fy=E / 500, eps_su=0.02)


def material(E, rho, kind='elastic'):
    from structuralcodes.materials.basic import GenericMaterial

    return GenericMaterial(rho, law(E, kind))


def rect(x, y, w, h):
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


def add(a, b, k=1):
    return [p + k * q for p, q in zip(a, b)]


def bar_moments(x, y, A):
    return [A, A * x, A * y, A * x * x, A * y * y, A * x * y]


def centroidal(t):
    # moments (A, Sx, Sy, Ixx, Iyy, Ixy) about their own centroid
    A, sx, sy, ixx, iyy, ixy = t
    return about(t, sx / A, sy / A)


def about(t, cx, cy):
    A, sx, sy, ixx, iyy, ixy = t
    return [
        A, sx - cx * A, sy - cy * A,
        ixx - 2 * cx * sx + cx * cx * A,
        iyy - 2 * cy * sy + cy * cy * A,
        ixy - cx * sy - cy * sx + cx * cy * A,
    ]


def verify(c, gp, surfaces, bars, per, what='', unit=1):
    """surfaces: (moments, E, rho); bars: (x, y, A, E, rho).

    unit: of the lengths, in mm (for the tolerances).
    """
    g = [0] * 6
    e = [0] * 6
    mass = area_s = 0
    for t, E, rho in surfaces:
        g, e = add(g, t), add(e, t, E)
        mass = mass + t[0] * rho * F(1, 10**9)
    area = g[0]
    for x, y, A, E, rho in bars:
        t = bar_moments(x, y, A)
        g, e = add(g, t), add(e, t, E)
        mass = mass + A * rho * F(1, 10**9)
        area_s = area_s + A
    u = 1 / unit
    c.eq(what + 'area', gp.area, area, atol=1e-6 * u**2)
    c.eq(what + 'reinforcement area', gp.area_reinforcement, area_s,
         atol=1e-6 * u**2)
    c.eq(what + 'mass', gp.mass, mass, atol=1e-9 * u**2)
    if per is not None:
        c.eq(what + 'perimeter', gp.perimeter, per)
    c.eq(what + 'axial rigidity', gp.ea, e[0])
    for nm, t, k in (('', g, 1.0), ('e_', e, 2e5)):
        a1, a2 = k * u**3, 1e3 * k * u**4
        c.eq(what + nm + 'sy', getattr(gp, nm + 'sy'), t[2], atol=a1)
        c.eq(what + nm + 'sz', getattr(gp, nm + 'sz'), t[1], atol=a1)
        c.eq(what + nm + 'iyy', getattr(gp, nm + 'iyy'), t[4], atol=a2)
        c.eq(what + nm + 'izz', getattr(gp, nm + 'izz'), t[3], atol=a2)
        c.eq(what + nm + 'iyz', getattr(gp, nm + 'iyz'), t[5], atol=a2)
    cy, cz = e[1] / e[0], e[2] / e[0]
    c.eq(what + 'cy', gp.cy, cy, atol=1e-6 * u)
    c.eq(what + 'cz', gp.cz, cz, atol=1e-6 * u)
    for nm, t, k in (('', g, 1.0), ('e_', e, 2e5)):
        a2 = 1e3 * k * u**4
        t = about(t, cy, cz)
        yy, zz, yz = t[4], t[3], t[5]
        c.eq(what + nm + 'iyy_c', getattr(gp, nm + 'iyy_c'), yy, atol=a2)
        c.eq(what + nm + 'izz_c', getattr(gp, nm + 'izz_c'), zz, atol=a2)
        c.eq(what + nm + 'iyz_c', getattr(gp, nm + 'iyz_c'), yz, atol=a2)
        i1, i2 = getattr(gp, nm + 'i11'), getattr(gp, nm + 'i22')
        c.eq(what + nm + 'i11 + i22', i1 + i2, yy + zz, atol=a2)
        c.le(what + nm + 'i22 not larger than i11', i2, i1, atol=a2)


def gross(c, gs):
    from structuralcodes.geometry import CompoundGeometry
    from structuralcodes.sections import GenericSection

    return GenericSection(CompoundGeometry(gs)).gross_properties


BND = 'all symbolic: '


@harness('C16', 'rectangle', bounds=BND + 'position, dimensions, stiffness '
         'and density; elastic and elastic-plastic law', stubs=['shapely'],
         outside=OUT)
def rectangle(c):
    from structuralcodes.geometry import RectangularGeometry, SurfaceGeometry
    from structuralcodes.sections import GenericSection

    x, y = c.real('x', -1000, 1000), c.real('y', -1000, 1000)
    w, h = c.real('w', 50, 1000), c.real('h', 50, 1000)
    E, rho = c.real('E', 1000, 300000), c.real('rho', 0, 10000)
    mt = material(E, rho, c.choice('law', ['elastic', 'plastic']))
    how = c.choice('how', ['rectangle', 'surface'])
    if how == 'rectangle':
        g = RectangularGeometry(w, h, mt, origin=(x, y))
        x, y = x - w / 2, y - h / 2
    else:
        g = SurfaceGeometry(geo.lib(c).Polygon(rect(x, y, w, h)), mt)
    gp = GenericSection(g).gross_properties
    verify(c, gp, [(moments([rect(x, y, w, h)]), E, rho)], [], 2 * (w + h))


@harness('C16', 'dimensions in metres', params=[
    dict(free=f) for f in ('x', 'y', 'w', 'h')
], bounds='symbolic dimensions and '
         'position of a rectangle of 50 mm to 1 m near to the origin, and a '
         'bar', stubs=['shapely'], outside=OUT)
def metres(c, free):
    from structuralcodes.geometry import PointGeometry, SurfaceGeometry

    x, y, w, h = some(
        c, free, x=(-1, 1, F(1, 100)), y=(-1, 1, F(-3, 100)),
        w=(F(1, 20), 1, F(3, 10)), h=(F(1, 20), 1, F(1, 2)),
    )
    r = rect(x - w / 2, y - h / 2, w, h)
    con, st = material(30000, 2500), material(200000, 7850, 'plastic')
    gs = [
        SurfaceGeometry(geo.lib(c).Polygon(r), con),
        PointGeometry((F(1, 50), F(-1, 100)), F(1, 50), st),
    ]
    bars = [(F(1, 50), F(-1, 100), gs[1].area, 200000, 7850)]
    bars = bars if c.choice('bar', [0, 1]) else []
    gp = gross(c, gs[:1 + len(bars)])
    verify(c, gp, [(moments([r]), 30000, 2500)], bars, 2 * (w + h),
           unit=1000)


def some(c, given, **ranges):
    """Symbolic values for the names in given, fixed ones for the others."""
    out = []
    for n, (lo, hi, v) in ranges.items():
        out.append(c.real(n, lo, hi) if n in given else v)
    return out


@harness('C16', 'triangle', params=[
    dict(free=f) for f in ('x', 'y', 'u', 'v')
], bounds='one symbolic: position or third vertex', stubs=['shapely'],
    outside=OUT)
def triangle(c, free):
    from structuralcodes.geometry import SurfaceGeometry

    x, y, u, v = some(
        c, free, x=(-1000, 1000, 120), y=(-1000, 1000, -70),
        u=(-300, 300, 130), v=(50, 500, 210),
    )
    r = [(x, y), (x + 200, y), (x + u, y + v)]
    g = SurfaceGeometry(geo.lib(c).Polygon(r), material(30000, 2500))
    gp = gross(c, [g])
    t = moments([r])
    verify(c, gp, [(t, 30000, 2500)], [], None)
    c.eq('centroid', gp.cz, y + v / 3, atol=1e-6)


@harness('C16', 'hole', params=[
    dict(free=f) for f in ('w', 'h', 'a', 'b', 'x', 'y')
], bounds='one symbolic: dimensions of a rectangle and of a rectangular '
    'hole, and its position; both directions of the inner ring',
    stubs=['shapely'], outside=OUT)
def hole(c, free):
    from structuralcodes.geometry import SurfaceGeometry

    w, h, a, b, x, y = some(
        c, free, w=(300, 1000, 400), h=(300, 1000, 320), a=(20, 100, 60),
        b=(20, 100, 90), x=(10, 150, 40), y=(10, 150, 100),
    )
    out, inn = rect(0, 0, w, h), rect(x, y, a, b)
    inn = inn if c.choice('direction', [0, 1]) else inn[::-1]
    g = SurfaceGeometry(
        geo.lib(c).Polygon(out, [inn]), material(30000, 2500)
    )
    gp = gross(c, [g])
    t = add(moments([rect(0, 0, w, h)]), moments([rect(x, y, a, b)]), -1)
    verify(c, gp, [(t, 30000, 2500)], [], 2 * (w + h))


@harness('C16', 'reinforced', params=[
    dict(free=f) for f in ('w', 'h', 'p', 'q', 'E', 'r', 'rE')
], bounds='one or two symbolic: dimensions, coordinates of one of three '
    'bars of two materials, stiffness and density', stubs=['shapely'],
    outside=OUT)
def reinforced(c, free):
    from structuralcodes.geometry import PointGeometry, SurfaceGeometry

    w, h, x1, y1, Es, rho = some(
        c, free, w=(200, 1000, 400), h=(200, 1000, 320),
        p=(-100, 100, 40), q=(-100, 100, -30),
        E=(50000, 300000, 200000), r=(1000, 9000, 7850),
    )
    Ec = 30000
    con, st = material(Ec, 2500), material(Es, rho, 'plastic')
    st2 = material(150000, 5000)
    G = geo.lib(c)
    pos = [
        (x1, y1, 20, st, Es, rho),
        (70, 30, 16, st2, 150000, 5000),
        (-80, -60, 20, st, Es, rho),
    ]
    gs = [SurfaceGeometry(G.Polygon(rect(-w / 2, -h / 2, w, h)), con)]
    bars = []
    for x, y, d, mt, E, r in pos:
        gs.append(PointGeometry((x, y), d, mt))
        bars.append((x, y, gs[-1].area, E, r))
    gp = gross(c, gs)
    t = moments([rect(-w / 2, -h / 2, w, h)])
    verify(c, gp, [(t, Ec, 2500)], bars, 2 * (w + h))


@harness('C16', 'two surfaces', params=[
    dict(place=p, free=f) for p in ('stacked', 'apart')
    for f in ('w', 'h', 'b', 't', 'E', 'r', 's')
], bounds='one symbolic: dimensions of two rectangles of different '
    'materials, touching or apart, their offset, stiffness and density',
    stubs=['shapely'], outside=OUT)
def two_surfaces(c, place, free):
    from structuralcodes.geometry import SurfaceGeometry

    w, h, b, t, E, rho, s = some(
        c, free, w=(100, 500, 300), h=(100, 500, 250),
        b=(600, 1000, 700), t=(20, 200, 90), E=(1000, 300000, 210000),
        r=(1000, 9000, 7850), s=(-60, 60, 20),
    )
    y0 = h if place == 'stacked' else h + 30
    r1, r2 = rect(-w / 2, 0, w, h), rect(s - b / 2, y0, b, t)
    G = geo.lib(c)
    g1 = SurfaceGeometry(G.Polygon(r1), material(30000, 2500))
    g2 = SurfaceGeometry(G.Polygon(r2), material(E, rho))
    gp = gross(c, [g1, g2])
    per = 2 * (b + t + h) if place == 'stacked' else 0
    verify(c, gp, [(moments([r1]), 30000, 2500), (moments([r2]), E, rho)],
           [], per)


class Linear:
    """Integrator of a section with the given area moments."""

    def __init__(self, iyy, izz, iyz, f):
        self.iyy, self.izz, self.iyz, self.f = iyy, izz, iyz, f

    def integrate_strain_response_on_geometry(
        self, geo, strain, integrate='stress', **kw
    ):
        law_ = geo.geometries[0].material.constitutive_law
        k = 1 if bool(law_.get_tangent(eps=0) == 1) else self.f
        _e, y, z = strain
        return (
            0.0, k * (y * self.iyy - z * self.iyz),
            k * (z * self.izz - y * self.iyz), None,
        )


@harness('C16', 'principal axes', params=[
    dict(product=p) for p in ('positive', 'negative', 'zero')
], bounds='every tensor of inertia', stubs=['shapely'],
    outside='floating point rounding', timeout_ms=20000, budget=100)
def principal(c, product):
    from structuralcodes.geometry import RectangularGeometry
    from structuralcodes.sections import GenericSection

    yy, zz = c.real('iyy', 0.1, 10), c.real('izz', 0.1, 10)
    yz = 0
    if product != 'zero':
        s = 1 if product == 'positive' else -1
        yz = s * c.real('iyz', 1e-3, 8)
        c.assume(yz * yz < yy * zz)
    else:
        c.assume(abs(yy - zz) >= 1e-3)
    sec = GenericSection(RectangularGeometry(1, 1, material(30000, 2500)))
    sec.section_calculator.integrator = Linear(yy, zz, yz, 30000)
    gp = sec.gross_properties
    for nm, k in (('', 1), ('e_', 30000)):
        i1, i2 = getattr(gp, nm + 'i11') / k, getattr(gp, nm + 'i22') / k
        th = getattr(gp, nm + 'theta')
        c.eq(nm + 'trace', i1 + i2, yy + zz)
        c.eq(nm + 'determinant', i1 * i2, yy * zz - yz * yz, atol=1e-6)
        c.le(nm + 'order', i2, i1, atol=1e-9)
        cs, sn = m.cos(th), m.sin(th)
        # the axis (cs, sn) is principal, with the moment i11
        c.eq(nm + 'moment about the axis, along', yy * cs - yz * sn,
             i1 * cs, atol=1e-6)
        c.eq(nm + 'moment about the axis, across', zz * sn - yz * cs,
             i1 * sn, atol=1e-6)


FIELDS = (
    'area', 'area_reinforcement', 'ea', 'mass', 'perimeter', 'sy', 'sz',
    'e_sy', 'e_sz', 'cy', 'cz', 'iyy', 'izz', 'iyz', 'iyy_c', 'izz_c',
    'iyz_c', 'i11', 'i22', 'theta', 'e_iyy', 'e_izz', 'e_iyz', 'e_iyy_c',
    'e_izz_c', 'e_iyz_c', 'e_i11', 'e_i22', 'e_theta',
)


@harness('C16', 'comparison of properties', bounds='every field, any value '
         'of it in two sets of properties, default and given tolerances',
         outside='floating point rounding')
def comparison(c):
    from structuralcodes.core._section_results import SectionProperties

    f = c.choice('field', FIELDS)
    a, b = c.real('a', -1000, 1000), c.real('b', -1000, 1000)
    base = {k: 7 + i for i, k in enumerate(FIELDS)}
    one = SectionProperties(**{**base, f: a})
    two = SectionProperties(**{**base, f: b})
    kw = c.choice('tolerances', [{}, {'rtol': 0.01}, {'atol': 1}])
    tol = kw.get('atol', 1e-8) + kw.get('rtol', 1e-5) * abs(b)
    d = abs(a - b)
    c.assume((d <= tol * 0.99) | (d >= tol * 1.01))
    c.check('close exactly when every property is close',
            bool(one.isclose(two, **kw)) == bool(d <= tol))
    c.check('close to itself', bool(one.isclose(one)))
    c.check('other objects are not compared',
            one.isclose(3) is NotImplemented)
