"""C12, C13, C14: ultimate states, moment-curvature, interaction domains."""

import math
from fractions import Fraction as F

from symx import geo
from symx.harness import harness

OUT = (
    'shapely (stand-in symx/geo.py, compared with the real library at the '
    'witness of every path); floating point rounding; other sections'
)
# angles of the neutral axis with their cosine and sine
ANGLES = {
    '0': 0.0, '90': math.pi / 2, '180': math.pi, '37': math.atan2(3, 4),
    '-143': math.atan2(-3, -4), '127': math.atan2(4, -3),
}


def concrete(eps_u=-0.0035, eps_0=-0.002):
    import structuralcodes.materials.constitutive_laws as q

    return q.ParabolaRectangle(20, eps_0=eps_0, eps_u=eps_u)


def steel(eps_su=0.02, fy=400):
    import structuralcodes.materials.constitutive_laws as q

    return q.ElasticPlastic(E=200000, fy=fy, eps_su=eps_su)


class S:
    """A section with known extreme points.

    pts: (x, y, law, point or surface) where strains are checked.
    """

    def __init__(self, c, kind):
        from structuralcodes.geometry import (
            CompoundGeometry, PointGeometry, SurfaceGeometry,
        )
        from structuralcodes.materials.basic import GenericMaterial
        from structuralcodes.sections import GenericSection

        G = geo.lib(c)
        self.pts = []
        gs = []

        # ' m': the same section with dimensions in metres
        metres = kind.endswith(' m')
        kind = kind[:-2] if metres else kind

        def mm(v):
            return v * F(1, 1000) if metres else v

        def surf(ring, law, is_concrete=False):
            ring = [(mm(x), mm(y)) for x, y in ring]
            gs.append(SurfaceGeometry(
                G.Polygon(ring), GenericMaterial(2500, law),
                concrete=is_concrete,
            ))
            self.pts.extend((x, y, law) for x, y in ring)

        def bar(x, y, law):
            x, y = mm(x), mm(y)
            gs.append(PointGeometry((x, y), mm(20), GenericMaterial(7850, law)))
            self.pts.append((x, y, law))

        def rect(x, y, w, h):
            return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]

        if kind == 'reinforced':
            # symbolic height and bars, symbolic limits
            h = c.real('h', 400, 1000)
            e = c.real('eps_cu', 0.0026, 0.0049)
            u = c.real('eps_su', 0.005, 0.05)
            y = c.real('y', 30, 150)
            surf(rect(-150, -h / 2, 300, h), concrete(-e), True)
            st = steel(u)
            for yy in (-h / 2 + y, h / 2 - y):
                bar(-100, yy, st)
                bar(100, yy, st)
        elif kind == 'reinforced 2':
            # two materials of bars with the same limit, anywhere
            e = c.real('eps_cu', 0.0026, 0.0049)
            y = c.real('y', -180, 180)
            surf(rect(-150, -250, 300, 500), concrete(-e), True)
            bar(-100, -200, steel(0.02))
            bar(90, y, steel(0.02, 300))
        elif kind == 'steel':
            u = c.real('eps_su', 0.005, 0.05)
            h = c.real('h', 100, 600)
            st = steel(u)
            surf(rect(-100, 0, 200, 20), st)
            surf(rect(-10, 20, 20, h), st)
            surf(rect(-60, 20 + h, 120, 15), st)
        elif kind == 'composite':
            # a steel profile in concrete and bars
            h = c.real('h', 100, 300)
            e = c.real('eps_cu', 0.0026, 0.0049)
            surf(rect(-200, -200, 400, 400), concrete(-e), True)
            surf(rect(-50, -h / 2, 100, h), steel(0.02))
            bar(-150, -150, steel(0.02))
            bar(150, 150, steel(0.02))
        elif kind == 'composite 2':
            # a profile of less ductility than the bars and below them (for
            # other limits see the bars with different tensile limits)
            u = c.real('eps_su', 0.0036, 0.02)
            surf(rect(-200, -200, 400, 400), concrete(), True)
            surf(rect(-50, -190, 100, 380), steel(u))
            bar(-150, -150, steel(0.02))
            bar(150, 150, steel(0.02))
        elif kind == 'elastic':
            import structuralcodes.materials.constitutive_laws as q

            surf(rect(-100, 10, 300, 500), q.Elastic(30000))
            bar(-50, 60, q.Elastic(200000))
            bar(150, 80, q.Elastic(150000))
        elif kind == 'two limits':
            y = c.real('y', -180, 180)
            u = c.real('eps_2', 0.005, 0.05)
            surf(rect(-150, -250, 300, 500), concrete(), True)
            bar(-100, -200, steel(0.02))
            bar(90, y, steel(u))
        self.geometry = CompoundGeometry(gs)
        self.section = GenericSection(self.geometry)
        self.calc = self.section.section_calculator

    def strains(self, eps, ky, kz):
        return [eps + ky * y - kz * x for x, y, _l in self.pts]

    def within_limits(self, c, what, eps, ky, kz, exact=True):
        """No point beyond its limits; at least one at its limit."""
        at = False
        for i, ((x, y, lw), e) in enumerate(
            zip(self.pts, self.strains(eps, ky, kz))
        ):
            lo, hi = lw.get_ultimate_strain()
            c.le(f'{what}point {i} not beyond the compressive limit', lo, e,
                 atol=1e-9)
            c.le(f'{what}point {i} not beyond the tensile limit', e, hi,
                 atol=1e-9)
            at = at | (abs(e - lo) <= 1e-9) | (abs(e - hi) <= 1e-9)
        if exact:
            c.check(f'{what}one material at its limit', at)


class Response:
    """Integrator with arbitrary resultants; remembers the strains."""

    def __init__(self, c, limit):
        self.c, self.limit, self.seen = c, limit, []

    def integrate_strain_response_on_geometry(
        self, geo, strain, integrate='stress', **kw
    ):
        k = len(self.seen)
        if k >= self.limit:
            self.c.cut(f'more than {self.limit} integrations')
        r = (self.c.real(f'N{k}', -1e7, 1e7), self.c.real(f'My{k}', -1e9, 1e9),
             self.c.real(f'Mz{k}', -1e9, 1e9))
        self.seen.append((geo, strain, r))
        return (*r, None)


# --- C12


@harness('C12', 'limits', params=[
    dict(kind=k, theta=a) for k, a in (
        ('reinforced', '0'), ('reinforced', '180'), ('reinforced', '90'),
        ('reinforced', '37'), ('reinforced 2', '0'), ('reinforced 2', '127'),
        ('steel', '0'), ('steel', '-143'), ('composite', '0'),
        ('composite', '90'), ('composite 2', '0'), ('composite 2', '180'),
        ('reinforced m', '0'), ('reinforced 2 m', '127'), ('steel m', '0'),
        ('composite 2 m', '180'),
    )
], bounds='symbolic dimensions, strain limits and axial load; any axial '
    'forces in up to 3 steps of the search; neutral axes at 0, 37, 90, 127, '
    '180 and -143 degrees', stubs=['shapely', 'the integrator'],
    outside=OUT, budget=100)
def limits(c, kind, theta):
    s = S(c, kind)
    th = ANGLES[theta]
    n = c.real('n', -1e7, 1e7)
    adv = Response(c, 8)
    s.calc.integrator = adv
    try:
        res = s.calc.calculate_bending_strength(theta=th, n=n)
    except ValueError:
        ns = [r[0] for _g, _s, r in adv.seen]
        ok = (n < ns[0]) | (n > ns[1])
        if len(ns) >= 4:
            ok = ok | ((ns[2] - n) * (ns[3] - n) > 0)
        c.check('only refused outside the range of the axial load', ok)
        return
    ns = [r[0] for _g, _s, r in adv.seen]
    c.le('smallest axial load', ns[0], n, rtol=1e-9, atol=1e-9)
    c.le('largest axial load', n, ns[1], rtol=1e-9, atol=1e-9)
    s.within_limits(c, '', res.eps_a, res.chi_y, res.chi_z)
    cs, sn = F(math.cos(th)), F(math.sin(th))
    c.eq('neutral axis at the requested angle', res.chi_y * sn,
         res.chi_z * cs, atol=1e-13)
    c.le('sign of the curvature', res.chi_y * cs + res.chi_z * sn, 0)
    c.check('angle', res.theta == th)


@harness('C12', 'bars with different tensile limits', bounds='symbolic '
         'position of a bar, limit of its strain and axial load; any axial '
         'forces in up to 3 steps of the search', outside=OUT,
         stubs=['shapely', 'the integrator'], budget=60)
def two_limits(c):
    limits(c, 'two limits', '0')


@harness('C12', 'range of the axial load', params=[
    dict(kind=k) for k in ('reinforced', 'steel', 'composite', 'composite 2')
], bounds='symbolic dimensions and strain limits; any response',
    stubs=['shapely', 'the integrator'], outside=OUT)
def axial_range(c, kind):
    s = S(c, kind)
    adv = Response(c, 4)
    s.calc.integrator = adv
    lo, hi = s.calc.n_min, s.calc.n_max
    c.check('two strains integrated', len(adv.seen) == 2)
    for (_g, st, r), v, i in zip(adv.seen, (lo, hi), (0, 1)):
        c.check(f'no curvature {i}', st[1] == 0 and st[2] == 0)
        c.eq(f'axial load {i}', v, r[0])
        s.within_limits(c, f'strain {i}: ', *st)
    c.le('compression first', adv.seen[0][1][0], 0)
    c.le('tension second', 0, adv.seen[1][1][0])
    n = c.real('n', -1e7, 1e7)
    c.assume(lo <= hi)
    for f in ('calculate_bending_strength', 'calculate_moment_curvature'):
        for out in (lo - 1, hi + 1):
            c.check(f'{f} refuses', c.raises(getattr(s.calc, f), n=out))
    ok = not c.raises(s.calc.check_axial_load, n)
    c.check('admitted exactly in the range', ok == bool(
        (n >= lo) & (n <= hi)))


def elastic_state(s, n, chi, geom):
    """Axial strain in equilibrium with n at curvature chi in geom."""
    i = s.calc.integrator.integrate_strain_response_on_geometry
    n0 = i(geom, [0.0, chi, 0.0])[0]
    ea = i(geom, [F(1, 1000), 0.0, 0.0])[0] * 1000
    return (n - n0) / ea


@harness('C12', 'resultants', params=[dict(theta=a) for a in ANGLES],
         bounds='elastic section with two bars of different stiffness; '
         'symbolic axial load and curvature at failure',
         stubs=['shapely', 'find_equilibrium_fixed_pivot (the equilibrium '
                'state of a symbolic curvature)'], outside=OUT)
def resultants(c, theta):
    s = S(c, 'elastic')
    th = ANGLES[theta]
    n = c.real('n', -1e6, 1e6)
    chi = -c.real('chi', 1e-7, 1e-4)
    args = []

    def pivot(geom, n_, yielding=False):
        args.append((n_, yielding))
        return [elastic_state(s, n_, chi, geom), chi, 0]

    s.calc.find_equilibrium_fixed_pivot = pivot
    s.calc._n_min, s.calc._n_max = None, None
    if theta == '0' and c.choice('arguments', ['given', 'left out']) \
            == 'left out':
        n = 0
        res = s.calc.calculate_bending_strength()
        c.check('no angle by default', res.theta == 0)
    else:
        res = s.calc.calculate_bending_strength(theta=th, n=n)
    c.eq('requested axial load is used', args[0][0], n)
    c.check('ultimate, not yielding', not args[0][1])
    N, My, Mz = s.calc.integrate_strain_profile(
        [res.eps_a, res.chi_y, res.chi_z])
    c.eq('axial load in equilibrium', N, n, atol=1e-2)
    c.eq('reported axial load', res.n, n, atol=1e-2)
    c.eq('reported My', res.m_y, My, atol=1.0)
    c.eq('reported Mz', res.m_z, Mz, atol=1.0)
    c.eq('curvature', res.chi_y, chi * F(math.cos(th)), atol=1e-12)
    c.eq('curvature z', res.chi_z, chi * F(math.sin(th)), atol=1e-12)


# --- C13


@harness('C13', 'given curvatures', params=[
    dict(theta=a, form=f) for a, f in (
        ('0', 'list'), ('0', 'array'), ('0', 'integers'), ('90', 'tuple'),
        ('180', 'list'), ('37', 'array'), ('-143', 'list'), ('127', 'list'),
    )
], bounds='elastic section with two bars of different stiffness; symbolic '
    'axial load and 3 symbolic curvatures', outside=OUT,
    stubs=['shapely', 'find_equilibrium_fixed_curvature (the equilibrium '
           'state)'])
def given(c, theta, form):
    import numpy as np

    s = S(c, 'elastic')
    th = ANGLES[theta]
    n = c.real('n', -1e6, 1e6)
    if form == 'integers':
        chi = [0, 1, -1]
    else:
        chi = [c.real(f'chi{i}', -1e-3, 1e-3) for i in range(3)]
    calls = []

    def fixed(geom, n_, curv, eps_0):
        calls.append((n_, curv, eps_0))
        return [elastic_state(s, n_, curv, geom), curv, 0]

    s.calc.find_equilibrium_fixed_curvature = fixed
    given_ = {'list': list, 'integers': list, 'tuple': tuple,
              'array': np.array}[form](chi)
    res = s.calc.calculate_moment_curvature(theta=th, n=n, chi=given_)
    states(c, s, res, th, n, chi)
    c.check('the given curvatures are untouched', all(
        bool(a == b) for a, b in zip(given_, chi)))


def states(c, s, res, th, n, chi):
    c.check('number of points', len(res.chi_y) == len(chi) and all(
        len(v) == len(chi) for v in (
            res.chi_z, res.eps_axial, res.m_y, res.m_z)))
    c.check('axial load', bool(res.n == n))
    c.check('angle', res.theta == th)
    cs, sn = F(math.cos(th)), F(math.sin(th))
    for i, k in enumerate(chi):
        at = 1e-12 if abs(k) < 0.1 else 1e-9
        c.eq(f'curvature {i}', res.chi_y[i], k * cs, atol=at)
        c.eq(f'curvature z {i}', res.chi_z[i], k * sn, atol=at)
        N, My, Mz = s.calc.integrate_strain_profile(
            [res.eps_axial[i], res.chi_y[i], res.chi_z[i]])
        c.eq(f'axial load {i}', N, n, rtol=1e-6, atol=0.1)
        c.eq(f'My {i}', res.m_y[i], My, atol=10.0)
        c.eq(f'Mz {i}', res.m_z[i], Mz, atol=10.0)


@harness('C13', 'default curvatures', params=[
    dict(pre=a, post=b, theta=t) for a, b, t in (
        (10, 10, '0'), (3, 2, '0'), (2, 1, '37'), (4, 0, '180'),
    )
], bounds='elastic section; symbolic axial load, first, yield and ultimate '
    'curvature', outside=OUT,
    stubs=['shapely', 'find_equilibrium_fixed_curvature and _pivot (the '
           'equilibrium state)'])
def default(c, pre, post, theta):
    s = S(c, 'elastic')
    th = ANGLES[theta]
    n = c.real('n', -1e6, 1e6)
    cu = c.choice('sign u', [-1, 1]) * c.real('chi_u', 1e-6, 1e-3)
    cy = c.choice('sign y', [-1, 1]) * c.real('chi_y', 1e-6, 1e-3)
    first = c.choice('sign first', [-1, 1]) * c.real('first', 1e-9, 1e-3)
    calls = []

    def pivot(geom, n_, yielding=False):
        calls.append(n_)
        k = cy if yielding else cu
        return [elastic_state(s, n_, k, geom), k, 0]

    def fixed(geom, n_, curv, eps_0):
        calls.append(n_)
        return [elastic_state(s, n_, curv, geom), curv, 0]

    s.calc.find_equilibrium_fixed_pivot = pivot
    s.calc.find_equilibrium_fixed_curvature = fixed
    kw = dict(num_pre_yield=pre, num_post_yield=post)
    if c.choice('given first', [False, True]):
        kw['chi_first'] = first
    else:
        first = F(1, 10**8)
    kw.update(theta=th, n=n)
    if pre == 10 and c.choice('arguments', ['given', 'left out']) \
            == 'left out':
        # axial load, angle and numbers of curvatures by default
        n = 0
        for k in ('theta', 'n', 'num_pre_yield', 'num_post_yield'):
            del kw[k]
    try:
        res = s.calc.calculate_moment_curvature(**kw)
    except ValueError:
        c.check('only refused when yield and ultimate curvature differ in '
                'sign', cu * cy < 0)
        return
    c.check('same sign of yield and ultimate curvature', cu * cy > 0)
    c.check('the requested axial load is used',
            all(bool(v == n) for v in calls))
    sg = -1 if bool(cy < 0) else 1
    first = sg * abs(first)
    if bool(abs(first) >= abs(cy)):
        first = cy / pre
    plastic = bool(abs(cu) > abs(cy) + F(1, 10**8))
    want = []
    if plastic:
        for i in range(pre - 1):
            want.append(first + (cy - first) * F(i, pre - 1))
        for i in range(post + 1):
            want.append(cy + (cu - cy) * (F(i, post) if post else 0))
    else:
        for i in range(pre):
            want.append(first + (cy - first) * F(i, pre - 1))
    cs, sn = F(math.cos(th)), F(math.sin(th))
    got = [a * cs + b * sn for a, b in zip(res.chi_y, res.chi_z)]
    c.check('number of curvatures', len(got) == len(want))
    c.eq('yield at the documented place', got[pre - 1], cy, atol=1e-12)
    if post:
        c.le('ultimate curvature reached', abs(cu), abs(got[-1]) + 2e-8)
    for i, (a, b) in enumerate(zip(got, want)):
        c.eq(f'curvature {i}', a, b, atol=1e-11)
    for i in (0, pre - 1, len(got) - 1):
        N, My, Mz = s.calc.integrate_strain_profile(
            [res.eps_axial[i], res.chi_y[i], res.chi_z[i]])
        c.eq(f'axial load {i}', N, n, rtol=1e-6, atol=0.1)
        c.eq(f'My {i}', res.m_y[i], My, atol=10.0)
        c.eq(f'Mz {i}', res.m_z[i], Mz, atol=10.0)


@harness('C13', 'start of the searches', bounds='elastic section; 3 '
         'symbolic curvatures, any equilibrium strains', outside=OUT,
         stubs=['shapely', 'find_equilibrium_fixed_curvature (any strain)'])
def chain(c):
    s = S(c, 'elastic')
    chi = [c.real(f'chi{i}', -1e-3, 1e-3) for i in range(3)]
    eps = [c.real(f'eps{i}', -1e-3, 1e-3) for i in range(3)]
    k = []

    def fixed(geom, n_, curv, eps_0):
        k.append(curv)
        c.check('no axial load by default', bool(n_ == 0))
        return [eps[len(k) - 1], curv, 0]

    s.calc.find_equilibrium_fixed_curvature = fixed
    res = s.calc.calculate_moment_curvature(chi=chi)
    c.check('no angle or axial load by default',
            bool(res.n == 0) and res.theta == 0)
    c.check('one search for each curvature', len(k) == 3)
    for i in range(3):
        c.eq(f'order {i}', k[i], chi[i])
        c.eq(f'strain {i}', res.eps_axial[i], eps[i], atol=1e-15)
        _n, My, Mz = s.calc.integrate_strain_profile([eps[i], chi[i], 0.0])
        c.eq(f'My {i}', res.m_y[i], My, atol=10.0)
        c.eq(f'Mz {i}', res.m_z[i], Mz, atol=10.0)


# --- C14

LIN = {f'type_{i}': 'linear' for i in range(1, 7)}
NUMS = dict(num_1=1, num_2=2, num_3=2, num_4=2, num_5=2, num_6=3)


def at_limit(c, s, what, field, strain, pivot):
    """An ultimate state: limits kept, one of them reached."""
    e, ky, kz = strain
    if field < 6 or pivot is None:
        s.within_limits(c, what, e, ky, kz)
        return
    # compressed section: all fibres between the limits, and the strain at
    # compression of the whole section in the fibre of the pivot
    s.within_limits(c, what, e, ky, kz, exact=False)
    vals = s.strains(e, ky, kz)
    for i, v in enumerate(vals):
        c.le(f'{what}point {i} compressed', v, 0, atol=1e-9)
    z, eps = pivot
    c.eq(f'{what}strain of the pivot', e + z[0] * ky - z[1] * kz, eps,
         atol=1e-9)


def pivot_of(s, th):
    """(lever arms of the pivot in ky and kz, its strain) for concrete."""
    pts = [(x, y, lw) for x, y, lw in s.pts]
    lw = pts[0][2]
    if type(lw).__name__ != 'ParabolaRectangle':
        return None
    cs, sn = F(math.cos(th)), F(math.sin(th))
    # height across the neutral axis
    zs = [-x * sn + y * cs for x, y, _l in pts[:4]]
    top, bot = zs[0], zs[0]
    for z in zs[1:]:
        top = z if bool(z > top) else top
        bot = z if bool(z < bot) else bot
    eu = lw.get_ultimate_strain()[0]
    e0 = lw.get_ultimate_strain(yielding=True)[0]
    z = top - (1 - e0 / eu) * (top - bot)
    return (z * cs, -z * sn), e0


def points(c, s, th, nums, strains, fields, pivot, what='', shift=0):
    want = [f + 1 for f, k in enumerate(nums) for _ in range(k)]
    c.check(f'{what}number of points', len(strains) == len(want))
    c.check(f'{what}fields', [int(f) for f in fields] == want)
    cs, sn = F(math.cos(th)), F(math.sin(th))
    for i, (f, st) in enumerate(zip(want, strains)):
        w = f'{what}point {i + shift}: '
        at_limit(c, s, w, f, st, pivot)
        c.eq(w + 'neutral axis at the angle', st[1] * sn, st[2] * cs,
             atol=1e-13)
        c.le(w + 'sign of the curvature', st[1] * cs + st[2] * sn, 0,
             atol=1e-12)
    for i, nm in ((0, 'tension'), (len(strains) - 1, 'compression')):
        k = strains[i]
        c.le(f'{what}no curvature in pure {nm}',
             abs(k[1]) + abs(k[2]), 0, atol=1e-13)
    c.le(f'{what}pure tension is tension', 0, strains[0][0])
    c.le(f'{what}pure compression is compression', strains[-1][0], 0)


def columns(c, res):
    """The named columns of a domain are those of its tables."""
    for table, names in (
        ('forces', ('n', 'm_y', 'm_z')), ('strains', ('e_a', 'k_y', 'k_z')),
    ):
        rows = getattr(res, table)
        for k, nm in enumerate(names):
            col = getattr(res, nm)
            c.check(f'{nm}: number of points', len(col) == len(rows))
            c.check(f'{nm}: column {k} of {table}', all(
                bool(a == r[k]) for a, r in zip(col, rows)))


def forces(c, s, adv, res, n):
    c.check('all integrated', len(adv.seen) == n == len(res.forces))
    columns(c, res)
    for i, (g, st, r) in enumerate(adv.seen):
        c.check(f'section {i}', g is s.section.geometry)
        for k, nm in enumerate(('axial strain', 'chi y', 'chi z')):
            c.eq(f'{nm} {i}', res.strains[i][k], st[k], atol=1e-15)
        for k, nm in enumerate(('N', 'My', 'Mz')):
            c.eq(f'{nm} {i}', res.forces[i][k], r[k])


@harness('C14', 'N-M domain', params=[
    dict(kind=k, theta=a, spacing=t) for k, a, t in (
        ('reinforced', '0', 'linear'), ('reinforced', '180', 'linear'),
        ('reinforced', '90', 'linear'), ('reinforced', '37', 'linear'),
        ('reinforced 2', '0', 'default'), ('reinforced 2', '127', 'linear'),
        ('steel', '0', 'linear'), ('steel', '-143', 'linear'),
        ('composite', '0', 'default'), ('composite', '90', 'linear'),
        ('reinforced', '0', 'quadratic'), ('steel', '0', 'quadratic'),
        ('reinforced', '0', 'geometric'), ('steel', '0', 'geometric'),
        ('reinforced m', '0', 'linear'), ('steel m', '-143', 'linear'),
    )
], bounds='symbolic dimensions and strain limits; any response; 12 points, '
    'linear, quadratic, geometric and default spacing; neutral axes at 0, 37, 90, 127, '
    '180 and -143 degrees', stubs=['shapely', 'the integrator'],
    outside=OUT, budget=100)
def nm_domain(c, kind, theta, spacing):
    s = S(c, kind)
    th = ANGLES[theta]
    adv = Response(c, 40)
    s.calc.integrator = adv
    kw = dict(NUMS)
    if spacing == 'linear':
        kw.update(LIN)
    elif spacing != 'default':
        kw.update({k: spacing for k in LIN})
    res = s.calc.calculate_nm_interaction_domain(theta=th, **kw)
    c.check('angle', res.theta == th)
    forces(c, s, adv, res, 12)
    points(c, s, th, list(NUMS.values()), res.strains, res.field_num,
           pivot_of(s, th))


@harness('C14', 'complete N-M domain', params=[
    dict(kind=k, theta=a) for k, a in (
        ('reinforced', '0'), ('reinforced 2', '37'), ('steel', '90'),
    )
], bounds='symbolic dimensions and strain limits; any response; 22 points',
    stubs=['shapely', 'the integrator'], outside=OUT, budget=100)
def complete(c, kind, theta):
    s = S(c, kind)
    th = ANGLES[theta]
    adv = Response(c, 40)
    s.calc.integrator = adv
    res = s.calc.calculate_nm_interaction_domain(
        theta=th, complete_domain=True, **NUMS, **LIN)
    forces(c, s, adv, res, 22)
    nums = list(NUMS.values())
    points(c, s, th, nums, res.strains[:12], res.field_num[:12],
           pivot_of(s, th))
    # the other side, without the two ends, on the way back
    st = [res.strains[0]] + list(res.strains[:11:-1]) + [res.strains[11]]
    fs = [1] + list(res.field_num[:11:-1]) + [6]
    points(c, s, th + math.pi, nums, st, fs, pivot_of(s, th + math.pi),
           'back: ')


def shares(total, least):
    """Points of the fields for a total number of points."""
    return [max(a, total * b // 35)
            for a, b in zip(least, (1, 2, 15, 10, 3, 4))]


@harness('C14', 'numbers of points', bounds='every number of points in each '
         'field between 0 and 3 (1 to 3 in field 6), and totals', outside=OUT,
         stubs=['shapely', 'the integrator'], budget=60)
def numbers(c):
    s = S(c, 'reinforced 2')
    adv = Response(c, 200)
    s.calc.integrator = adv
    f = c.choice('field', [1, 2, 3, 4, 5, 6])
    k = c.choice('number', [0, 1, 2, 3])
    kw = dict(NUMS)
    kw[f'num_{f}'] = k
    if f == 6:
        c.assume(k > 0)
    total = c.choice('total', [None, 17, 52, 70])
    if total:
        kw['num'] = total
    res = s.calc.calculate_nm_interaction_domain(**kw, **LIN)
    nums = [v for n_, v in kw.items() if n_ != 'num']
    if 'num' in kw:
        nums = shares(total, nums)
    want = [i + 1 for i, v in enumerate(nums) for _ in range(v)]
    c.check('fields', [int(v) for v in res.field_num] == want)
    forces(c, s, adv, res, len(want))


@harness('C14', 'N-M-M domain', params=[
    dict(kind=k) for k in ('reinforced 2', 'steel')
], bounds='symbolic dimensions and strain limits; any response; 5 angles, '
    '12 points each', stubs=['shapely', 'the integrator'], outside=OUT,
    budget=100)
def nmm_domain(c, kind):
    s = S(c, kind)
    adv = Response(c, 100)
    s.calc.integrator = adv
    res = s.calc.calculate_nmm_interaction_domain(
        num_theta=5, **NUMS, **LIN)
    forces(c, s, adv, res, 60)
    c.check('number of angles', res.num_theta == 5)
    c.check('a field for every point', len(res.field_num) == 60)
    nums = list(NUMS.values())
    for k in range(5):
        th = k * math.pi / 2
        sl = slice(12 * k, 12 * k + 12)
        points(c, s, th, nums, res.strains[sl], res.field_num[sl],
               pivot_of(s, th), f'angle {k}: ')


@harness('C14', 'numbers of points, N-M-M', bounds='totals of 17, 45 and 72 points, or '
         'a number between 1 and 3 in each field; 2 and 3 angles; the points '
         'are those of the N-M domain at the angle', outside=OUT,
         stubs=['shapely', 'the integrator'], budget=60)
def nmm_numbers(c):
    s = S(c, 'reinforced 2')
    adv = Response(c, 500)
    s.calc.integrator = adv
    kw = dict(NUMS)
    f = c.choice('field', [1, 3, 6])
    kw[f'num_{f}'] = c.choice('number', [1, 3])
    total = c.choice('total', [None, 17, 45, 72])
    nums = list(kw.values())
    if total:
        kw['num'] = total
        nums = shares(total, nums)
    na = c.choice('angles', [2, 3])
    want = [i + 1 for i, v in enumerate(nums) for _ in range(v)]
    res = s.calc.calculate_nmm_interaction_domain(num_theta=na, **kw, **LIN)
    c.check('fields', [int(v) for v in res.field_num] == want * na)
    forces(c, s, adv, res, len(want) * na)
    for k in range(na):
        one = s.calc.calculate_nm_interaction_domain(
            theta=2 * math.pi * k / (na - 1), **kw, **LIN)
        at = k * len(want)
        for i in (0, nums[0], len(want) // 2, len(want) - 1):
            for j in range(3):
                c.eq(f'strain {j} of point {i} at angle {k}',
                     res.strains[at + i][j], one.strains[i][j], atol=1e-12)


@harness('C14', 'M-M domain', bounds='elastic section with two bars; '
         'symbolic axial load and curvatures at failure; 5 angles',
         stubs=['shapely', 'find_equilibrium_fixed_pivot (the equilibrium '
                'state of a symbolic curvature)'], outside=OUT, budget=100)
def mm_domain(c):
    s = S(c, 'elastic')
    n = c.real('n', -1e6, 1e6)
    chis = [-c.real(f'chi{k}', 1e-7, 1e-4) for k in range(5)]
    k = []

    def pivot(geom, n_, yielding=False):
        k.append(n_)
        x = chis[len(k) - 1]
        return [elastic_state(s, n_, x, geom), x, 0]

    s.calc.find_equilibrium_fixed_pivot = pivot
    res = s.calc.calculate_mm_interaction_domain(n=n, num_theta=5)
    c.check('number of points', len(k) == len(res.forces) == 5
            and len(res.strains) == 5 and res.num_theta == 5)
    columns(c, res)
    for i in range(5):
        th = i * math.pi / 2
        c.eq(f'angle {i}', res.theta[i], th, atol=1e-12)
        e, ky, kz = res.strains[i]
        N, My, Mz = s.calc.integrate_strain_profile([e, ky, kz])
        c.eq(f'N {i}', res.forces[i][0], n, atol=1e-2)
        c.eq(f'equilibrium {i}', N, n, atol=1e-2)
        c.eq(f'My {i}', res.forces[i][1], My, atol=1.0)
        c.eq(f'Mz {i}', res.forces[i][2], Mz, atol=1.0)
        c.eq(f'chi y {i}', ky, chis[i] * F(math.cos(th)), atol=1e-12)
        c.eq(f'chi z {i}', kz, chis[i] * F(math.sin(th)), atol=1e-12)


@harness('C14', 'bars with different tensile limits', bounds='symbolic '
         'position of a bar and limit of its strain', outside=OUT,
         stubs=['shapely', 'the integrator'], budget=60)
def nm_two_limits(c):
    nm_domain(c, 'two limits', '0', 'linear')
