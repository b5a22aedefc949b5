"""C15: strain profiles for given loads."""

from fractions import Fraction as F

from symx.harness import harness

from .marin_section import RECT, TEE, L, make

OUT = (
    'shapely (stand-in symx/geo.py, compared with the real library at the '
    'witness of every path); floating point rounding'
)

# unit vectors
DIRS = [
    (F(3, 13), F(4, 13), F(12, 13)), (F(2, 7), F(-3, 7), F(6, 7)),
    (F(-1, 9), F(4, 9), F(-8, 9)), (F(2, 3), F(2, 3), F(-1, 3)),
]
# regular matrices
STIFF = [
    [[4, 1, 2], [1, 3, 0], [2, 0, 5]],
    [[2, 0, 1], [0, 6, 1], [1, 1, 4]],
    [[7, 2, 0], [2, 2, 1], [0, 1, 3]],
]


class Adversary:
    """Any response, seen through the increment that it gives.

    The stiffness of the j-th strain is one of STIFF; its response is
    such that the increment there is t_j times a unit vector.
    """

    def __init__(self, c, loads, initial, limit):
        self.c, self.loads, self.initial = c, loads, initial
        self.limit, self.seen, self.geos = limit, [], []

    def stiffness(self, j):
        K = STIFF[0 if self.initial else j % len(STIFF)]
        return [[10**11 * k for k in row] for row in K]

    def look(self, strain, what):
        s = [strain[0], strain[1], strain[2]]
        for e in self.seen:
            if all(bool(a == b) for a, b in zip(e['s'], s)):
                e['what'].add(what)
                return e
        j = len(self.seen)
        if j >= self.limit:
            self.c.cut(f'more than {self.limit} strains')
        t = self.c.real(f't{j}', -1e-3, 1e-3)
        d = [t * x for x in DIRS[j % len(DIRS)]]
        K = self.stiffness(j)
        r = [q - sum(k * x for k, x in zip(row, d))
             for q, row in zip(self.loads, K)]
        self.seen.append(dict(s=s, t=t, d=d, r=r, K=K, what={what}))
        return self.seen[-1]

    def integrate_strain_response_on_geometry(
        self, geo, strain, integrate='stress', **kw
    ):
        import numpy as np

        self.geos.append(geo)
        e = self.look(strain, integrate)
        if integrate == 'modulus':
            return np.array(e['K'], dtype=float), None
        return (*e['r'], None)


def rc(c):
    from structuralcodes.sections import GenericSection

    g = make(c, [((RECT, ()), L().Elastic(30000))], [])
    return GenericSection(g)


@harness('C15', 'any response', params=[
    dict(initial=i, max_iter=m) for i in (False, True) for m in (1, 2, 4)
], bounds='any loads and tolerance; responses seen through increments of '
    'any length in fixed directions; up to 6 iterations', outside=OUT + '; '
    'profiles that converge in more iterations', stubs=['the integrator'],
    budget=100)
def any_response(c, initial, max_iter):
    loads = [c.real('n', -1e7, 1e7), c.real('my', -1e9, 1e9),
             c.real('mz', -1e9, 1e9)]
    tol = c.real('tol', 1e-8, 1e-4)
    sec = rc(c)
    calc = sec.section_calculator
    adv = Adversary(c, loads, initial, 7)
    calc.integrator = adv
    try:
        got = calc.calculate_strain_profile(
            *loads, initial=initial, max_iter=max_iter, tol=tol)
    except StopIteration:
        got = None
    evals = [e for e in adv.seen if 'stress' in e['what']]
    for g in adv.geos:
        c.check('the section itself is integrated', g is sec.geometry)
    for i in range(3):
        c.eq(f'first strain {i}', evals[0]['s'][i], 0)
    for j in range(1, len(evals)):
        for i in range(3):
            c.eq(f'strain {j} component {i}', evals[j]['s'][i],
                 evals[j - 1]['s'][i] + evals[j - 1]['d'][i], atol=1e-15)
    for j, e in enumerate(evals[:-1]):
        c.le(f'not converged before {j}', tol, abs(e['t']), rtol=1e-9)
    if initial:
        for j, e in enumerate(adv.seen[1:]):
            c.check('initial stiffness only', 'modulus' not in e['what'])
    last = evals[-1]
    if got is None:
        c.check('error only after the allowed iterations',
                len(evals) >= max_iter)
        return
    c.check('not more than the allowed iterations', len(evals) <= max_iter)
    c.le('converged', abs(last['t']), tol, rtol=1e-9)
    # equilibrium of the linearised section
    for i, row in enumerate(last['K']):
        c.eq(f'loads {i}', loads[i], last['r'][i] + sum(
            k * (a - b) for k, a, b in zip(row, got, last['s'])), atol=1e-6,
            rtol=1e-9)


@harness('C15', 'never converging', params=[
    dict(initial=i) for i in (False, True)
], bounds='any loads; increments of any length above the tolerance, all '
    'iterations; 1, 3 and 10 allowed iterations', outside=OUT,
    stubs=['the integrator'])
def never(c, initial):
    loads = [c.real('n', -1e7, 1e7), 0.0, 0.0]
    m = c.choice('max_iter', [1, 3, 10])
    sec = rc(c)
    adv = Adversary(c, loads, initial, 1000)
    look = adv.look

    def far(strain, what):
        k = len(adv.seen)
        e = look(strain, what)
        if len(adv.seen) > k:
            c.assume(e['t'] > F(1, 10000) * (1 + k))
        return e

    adv.look = far
    sec.section_calculator.integrator = adv
    try:
        sec.section_calculator.calculate_strain_profile(
            *loads, initial=initial, max_iter=m)
    except StopIteration:
        ok = True
    else:
        ok = False
    c.check('no convergence is an error', ok)
    c.le('not given up early', m, len(adv.seen))


def sections(c, kind):
    if kind == 'rectangle':
        return make(c, [((RECT, ()), L().Elastic(30000))], [])
    if kind == 'tee and bars':
        return make(c, [((TEE, ()), L().Elastic(30000))], [
            (-20, -280, 20, L().Elastic(200000)),
            (250, 150, 25, L().Elastic(200000)),
        ])
    if kind.endswith(' m'):
        def u(r):
            return [(x / 1000, y / 1000) for x, y in r]

        bars = [] if kind == 'rectangle m' else [
            (-0.02, -0.28, 0.02, L().Elastic(200000)),
            (0.25, 0.15, 0.025, L().Elastic(200000)),
        ]
        return make(c, [((u(TEE if bars else RECT), ()),
                         L().Elastic(30000))], bars)
    # bars with hardening
    st = L().ElasticPlastic(E=200000, fy=400, Eh=100000)
    return make(c, [], [(x, y, 20, st) for x in (-100, 100)
                        for y in (-200, 200)])


@harness('C15', 'elastic sections', params=[
    dict(kind=k, direction=d, initial=i)
    for k in ('rectangle', 'tee and bars')
    for d in ((1, 0), (0, -1), (3, -4), (-5, 12)) for i in (False, True)
], bounds='any axial strain and curvature in a direction; the loads are the '
    'response there', outside=OUT + '; other directions')
def elastic(c, kind, direction, initial):
    from structuralcodes.sections import GenericSection

    calc = GenericSection(sections(c, kind)).section_calculator
    K = calc.integrate_strain_profile([0, 0, 0], 'modulus')
    e, k = c.real('e', -1e-3, 1e-3), c.real('k', -1e-5, 1e-5)
    want = [e, k * direction[0], k * direction[1]]
    n, my, mz = (sum(K[i][j] * want[j] for j in range(3)) for i in range(3))
    got = calc.calculate_strain_profile(n, my, mz, initial=initial)
    c.check('three numbers', isinstance(got, list) and len(got) == 3)
    for i, nm in enumerate(('axial strain', 'chi y', 'chi z')):
        c.eq(nm, got[i], want[i], atol=1e-14, rtol=1e-8)
    if 0 in direction:
        N, My, Mz = calc.integrate_strain_profile(got)
        c.eq('N', N, n, atol=1e-2, rtol=1e-6)
        c.eq('My', My, my, atol=1e1, rtol=1e-6)
        c.eq('Mz', Mz, mz, atol=1e1, rtol=1e-6)


@harness('C15', 'elastic sections in metres', params=[
    dict(kind=k, direction=d, initial=i)
    for k in ('rectangle m', 'tee and bars m')
    for d in ((1, 0), (0, -1), (3, -4)) for i in (False, True)
], bounds='dimensions of some decimetres in metres, forces in MN; any axial '
    'strain and curvature in a direction; the loads are the response there',
    outside=OUT + '; other directions')
def elastic_metres(c, kind, direction, initial):
    from structuralcodes.sections import GenericSection

    calc = GenericSection(sections(c, kind)).section_calculator
    K = calc.integrate_strain_profile([0, 0, 0], 'modulus')
    e, k = c.real('e', -1e-3, 1e-3), c.real('k', -1e-2, 1e-2)
    want = [e, k * direction[0], k * direction[1]]
    n, my, mz = (sum(K[i][j] * want[j] for j in range(3)) for i in range(3))
    got = calc.calculate_strain_profile(n, my, mz, initial=initial)
    for i, nm in enumerate(('axial strain', 'chi y', 'chi z')):
        c.eq(nm, got[i], want[i], atol=1e-12, rtol=1e-8)


@harness('C15', 'yielding bars', params=[
    dict(initial=i) for i in (False, True)
], bounds='four bars with hardening, any axial strain to 1 %; the loads are '
    'the response there; 60 iterations', outside=OUT)
def yielding(c, initial):
    from structuralcodes.sections import GenericSection

    calc = GenericSection(sections(c, 'bars')).section_calculator
    e = c.real('e', -0.01, 0.01)
    n, my, mz = calc.integrate_strain_profile([e, 0, 0])
    got = calc.calculate_strain_profile(n, my, mz, initial=initial,
                                        max_iter=60)
    # the rest of a series with ratio 1/2 is as large as its last term
    c.eq('axial strain', got[0], e, atol=4e-6)
    c.eq('chi y', got[1], 0, atol=1e-9)
    c.eq('chi z', got[2], 0, atol=1e-9)
    N, _My, _Mz = calc.integrate_strain_profile(got)
    c.eq('N', N, n, atol=4e-6 * 200000 * 1257)
