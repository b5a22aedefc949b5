"""C17 (and C09): results do not depend on earlier calculations or failures."""

import math
from fractions import Fraction as F

import numpy as np

from symx import geo
from symx.harness import harness

from .marin_section import L, make

OUT = (
    'shapely (stand-in symx/geo.py); the response of the section (linear, '
    'and in equilibrium where searches look first); floating point rounding; '
    'longer histories'
)
ANGLES = {'37': math.atan2(3, 4), '127': math.atan2(4, -3), '0': 0.0}


class Fault(RuntimeError):
    pass


class Meshed:
    """Integrator that meshes like the fiber integrator and checks its mesh.

    The mesh are the corners of the surfaces and the bars. The response is
    linear in the strain, except that the axial force is always the
    external one when the section is curved.
    """

    def __init__(self, c, n, geometry, mesh_size, fault=None):
        self.c, self.n, self.geometry = c, n, geometry
        self.mesh_size, self.fault = mesh_size, fault
        self.calls = self.meshes = 0

    def points(self, g):
        x, y = [], []
        for s in g.geometries:
            for p in list(s.polygon.exterior.coords)[:-1]:
                x.append(p[0])
                y.append(p[1])
        for p in g.point_geometries:
            x.append(p.x)
            y.append(p.y)
        return x, y

    def integrate_strain_response_on_geometry(
        self, geo, strain, integrate='stress', **kw
    ):
        c = self.c
        self.calls += 1
        if self.fault is not None and self.calls == self.fault:
            raise Fault('integration failed')
        x, y = self.points(geo)
        data = kw.get('integration_data')
        if data is None:
            self.meshes += 1
            size = kw.get('mesh_size', 0.01)
            c.eq('mesh size of the mesh', size, self.mesh_size, rtol=1e-12)
            dt = object if c.symbolic else float
            data = [(np.array(x, dtype=dt), np.array(y, dtype=dt),
                     np.ones(len(x)), None)]
        else:
            for i in range(len(x)):
                c.eq('mesh of this geometry: x', data[0][0][i], x[i],
                     atol=1e-6, rtol=1e-9)
                c.eq('mesh of this geometry: y', data[0][1][i], y[i],
                     atol=1e-6, rtol=1e-9)
        e, ky, kz = strain[0], strain[1], strain[2]
        if integrate == 'modulus':
            return np.array([[2e9, 1e11, 0], [1e11, 4e13, 1e12],
                             [0, 1e12, 3e13]]), data
        if ky == 0 and kz == 0:
            N = 2e9 * e
        else:
            N = self.n + 0 * e
        return (N, 1e11 * e + 4e13 * ky + 1e12 * kz, 1e12 * ky + 3e13 * kz,
                data)


def geometry(c, h):
    q = L()
    con = q.ParabolaRectangle(20)
    st = q.ElasticPlastic(E=200000, fy=400, eps_su=0.02)
    from structuralcodes.geometry import CompoundGeometry, SurfaceGeometry

    g = make(c, [([(-120, -250), (150, -250), (150, h), (-120, h)], ())
                 and (([(-120, -250), (150, -250), (150, h), (-120, h)], ()),
                      con)],
             [(-80, -200, 20, st), (110, -210, 20, st), (-50, h - 60, 16, st)])
    s = g.geometries[0]
    return CompoundGeometry(
        [SurfaceGeometry(s.polygon, s.material, concrete=True),
         *g.point_geometries])


class Run:
    """A section with its integrator."""

    def __init__(self, c, g, n, mesh_size, fault=None):
        from structuralcodes.sections import GenericSection

        self.section = GenericSection(g, integrator='fiber',
                                      mesh_size=mesh_size)
        self.calc = self.section.section_calculator
        self.integ = Meshed(c, n, g, mesh_size, fault)
        self.calc.integrator = self.integ
        self.n = n


CHI = [1e-6, 3e-6]


def op(name, r, th, n, chi):
    """[(name, number)] of the results."""
    k = r.calc
    out = []

    def add(nm, v):
        out.extend((f'{nm} {i}', x) for i, x in enumerate(
            np.asarray(v, dtype=object).flat))

    if name == 'integrate':
        add('forces', k.integrate_strain_profile([1e-4, -2e-6, 1e-6]))
        add('stiffness', k.integrate_strain_profile(
            [1e-4, -2e-6, 1e-6], 'modulus'))
    elif name == 'limits':
        add('limits', [k.n_min, k.n_max])
    elif name == 'bending':
        res = k.calculate_bending_strength(theta=th, n=n)
        for f in ('theta', 'n', 'm_y', 'm_z', 'chi_y', 'chi_z', 'eps_a'):
            add(f, getattr(res, f))
    elif name in ('curvature', 'curvature given'):
        kw = dict(num_pre_yield=2, num_post_yield=2)
        if name == 'curvature given':
            kw['chi'] = chi
        res = k.calculate_moment_curvature(theta=th, n=n, **kw)
        for f in ('n', 'm_y', 'm_z', 'chi_y', 'chi_z', 'eps_axial'):
            add(f, getattr(res, f))
    elif name == 'profile':
        add('profile', k.calculate_strain_profile(0.0, 0.0, 0.0))
    elif name in ('nm', 'nmm'):
        kw = dict(num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1,
                  type_3='linear')
        if name == 'nm':
            res = k.calculate_nm_interaction_domain(theta=th, **kw)
        else:
            res = k.calculate_nmm_interaction_domain(num_theta=2, **kw)
        add('strains', res.strains)
        add('forces', res.forces)
    elif name == 'mm':
        res = k.calculate_mm_interaction_domain(n=n, num_theta=2)
        add('strains', res.strains)
        add('forces', res.forces)
    return out


OPS = ['integrate', 'limits', 'bending', 'curvature', 'curvature given',
       'profile', 'nm', 'nmm', 'mm']


def state(g):
    out = []
    for s in g.geometries:
        for p in s.polygon.exterior.coords:
            out += [p[0], p[1]]
    for p in g.point_geometries:
        out += [p.x, p.y, p.diameter]
    return out


def compare(c, what, a, b):
    c.check(f'{what}: as many results', len(a) == len(b)
            and all(x[0] == y[0] for x, y in zip(a, b)))
    for (nm, x), (_n, y) in zip(a, b):
        c.eq(f'{what}: {nm}', x, y, rtol=1e-7, atol=1e-9)


@harness('C17', 'second calculation', params=[
    dict(first=a) for a in OPS
], bounds='every order of two of 9 calculations; the first one complete or '
    'failing in any of its first 8 integrations; two neutral axes; symbolic '
    'height and axial load; the same section or another one of the same '
    'geometry', stubs=['shapely', 'the integrator'], outside=OUT, budget=100)
def second(c, first):
    b = c.choice('second', OPS)
    fault = c.choice('fault', [None, 1, 2, 3, 4, 5, 6, 7, 8])
    th = ANGLES[c.choice('theta', ['37', '127'])]
    other = c.choice('other section', [False, True])
    h = c.real('h', 200, 400)
    n = c.real('n', -1e5, 1e5)
    size = 0.003
    g = geometry(c, h)
    before = state(g)
    chi = np.array(CHI)
    r = Run(c, g, n, size, fault)
    try:
        a_res = op(first, r, th, n, chi)
        failed = False
    except Fault:
        failed = True
    c.check('fails only where an integration fails',
            failed == (fault is not None and r.integ.calls >= fault))
    if not failed:
        if fault is not None:
            c.cut('the calculation has fewer integrations')
        kept = list(a_res)
    r.integ.fault = None
    if other:
        r = Run(c, g, n, size)
    got = op(b, r, 0.5, n, chi)
    fresh = Run(c, geometry(c, h), n, size)
    want = op(b, fresh, 0.5, n, np.array(CHI))
    compare(c, 'result', got, want)
    for i, (x, y) in enumerate(zip(state(g), before)):
        c.eq(f'geometry {i}', x, y)
    for i, x in enumerate(chi):
        c.eq(f'curvatures of the caller {i}', x, CHI[i])
    if not failed:
        compare(c, 'first result', a_res, kept)


QUARTERS = {f'{90 * k}': k * math.pi / 2 for k in range(-2, 5)}
QUARTERS['1'] = math.pi / 180


@harness('C17', 'special angles', params=[
    dict(first=a) for a in ('integrate', 'bending', 'curvature')
], bounds='two calculations for neutral axes at multiples of 90 degrees and '
    'at 1 degree; symbolic height and axial load',
    stubs=['shapely', 'the integrator'], outside=OUT, budget=60)
def special(c, first):
    b = c.choice('second', ['bending', 'curvature', 'nm'])
    th = QUARTERS[c.choice('theta', ['0', '180', '-90', '1'])]
    th2 = QUARTERS[c.choice('second theta', list(QUARTERS))]
    h = c.real('h', 200, 400)
    n = c.real('n', -1e5, 1e5)
    r = Run(c, geometry(c, h), n, 0.003)
    op(first, r, th, n, np.array(CHI))
    got = op(b, r, th2, n, np.array(CHI))
    fresh = Run(c, geometry(c, h), n, 0.003)
    compare(c, 'result', got, op(b, fresh, th2, n, np.array(CHI)))
