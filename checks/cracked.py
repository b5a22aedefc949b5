"""C36: elastic properties of cracked sections."""

import math
from fractions import Fraction as F

from symx import core as K
from symx import geo
from symx.harness import harness

from ._sec import moments
from .fiber import area, formatted, max_area, mesh_of, mesher
from .gross import OUT, about, add, bar_moments, material, rect
from .marin_section import half

STUB = [
    'shapely',
    'find_equilibrium_fixed_curvature returns the given neutral axis; the '
    'axial force of the section handed to it is checked there (C11 decides '
    'the search)',
]
ANG = {
    '0': (0, 1, 0), '90': (math.pi / 2, 0, 1), '180': (math.pi, -1, 0),
    '-90': (-math.pi / 2, 0, -1),
    '37': (math.atan2(3, 4), F(4, 5), F(3, 5)),
    '-53': (math.atan2(-4, 3), F(3, 5), F(-4, 5)),
}


class Axis:
    """The search for equilibrium returns the neutral axis at height z0."""

    def __init__(self, c, z0, force, always):
        self.c, self.z0, self.force, self.always = c, z0, force, always

    def __enter__(self):
        from structuralcodes.sections import _generic

        c, z0, force = self.c, self.z0, self.force
        stub = c.symbolic or self.always
        self.cls = _generic.GenericSectionCalculator
        self.old = old = self.cls.find_equilibrium_fixed_curvature

        def found(self, geom, n, curv, eps):
            c.check('bending without axial force', n == 0)
            if stub:
                got = [-z0 * curv, curv, 0]
            else:
                got = old(self, geom, n, curv, eps)
            n = self.integrator.integrate_strain_response_on_geometry(
                geom, got)[0]
            c.eq('axial force of the elastic section', n / curv, force,
                 atol=2e4)
            return got

        self.cls.find_equilibrium_fixed_curvature = found
        return self

    def __exit__(self, *a):
        self.cls.find_equilibrium_fixed_curvature = self.old


def run(c, concrete, steel, bars, z0, name, Es=None, dens=2500):
    """concrete: [(convex parts, ring, E)]; steel: [(ring, f)];
    bars: [(y, z, d, f)]: the moduli are f*Es, without Es such that z0 is
    the height of the neutral axis.
    """
    from structuralcodes.geometry import CompoundGeometry, PointGeometry
    from structuralcodes.geometry import SurfaceGeometry
    from structuralcodes.materials.basic import GenericMaterial
    from structuralcodes.materials.constitutive_laws import Elastic
    from structuralcodes.materials.constitutive_laws import UserDefined
    from structuralcodes.sections import GenericSection
    from structuralcodes.sections import (
        calculate_elastic_cracked_properties as cracked,
    )

    th, cs, sn = ANG[name]
    if c.symbolic:
        K.CTX.no_principal = True

    def height(v):
        return cs * v[1] - sn * v[0] - z0

    # first moment about the axis, of concrete and of the rest with E = f
    comp, push = [], 0
    for parts, _r, E in concrete:
        up = [half(p, height) for p in parts]
        t = [0] * 6
        for p in up:
            if len(p) > 2:
                t = add(t, moments([p]))
        comp.append((t, E))
        push = push + E * (cs * t[2] - sn * t[1] - z0 * t[0])
    pull = 0
    for r, f in steel:
        t = moments([r])
        pull = pull - f * (cs * t[2] - sn * t[1] - z0 * t[0])
    for y, z, d, f in bars:
        pull = pull - f * F(d * d, 4) * F(math.pi) * height((y, z))
    given = Es is not None
    if not given:
        c.assume(pull >= 1)
        Es = push / pull
    force = push - Es * pull
    G = geo.lib(c)
    gs = []
    for k, (_p, r, E) in enumerate(concrete):
        law = UserDefined([-0.01, 0, 0.001], [-0.01 * E, 0, 0.001 * E])
        gs.append(SurfaceGeometry(
            G.Polygon(r), GenericMaterial(dens, law), concrete=True,
            name=f'concrete {k}', group_label='c',
        ))
    for r, f in steel:
        gs.append(SurfaceGeometry(
            G.Polygon(r), GenericMaterial(7850, Elastic(f * Es)),
            name='plate',
        ))
    area_s = []
    for k, (y, z, d, f) in enumerate(bars):
        gs.append(PointGeometry(
            (y, z), d, GenericMaterial(7850, Elastic(f * Es)),
            name=f'bar {k}', group_label='b',
        ))
        area_s.append(gs[-1].area)
    g = CompoundGeometry(gs)
    with Axis(c, z0, force, given):
        gp, cg = cracked(GenericSection(g), theta=th,
                         return_cracked_section=True)
    tot, e = [0] * 6, [0] * 6
    mass = 0
    for t, E in comp:
        tot, e = add(tot, t), add(e, t, E)
        mass = mass + t[0] * dens * F(1, 10**9)
    for r, f in steel:
        t = moments([r])
        tot, e = add(tot, t), add(e, t, f * Es)
        mass = mass + t[0] * 7850 * F(1, 10**9)
    area = tot[0]
    for (y, z, d, f), A in zip(bars, area_s):
        t = bar_moments(y, z, A)
        tot, e = add(tot, t), add(e, t, f * Es)
        mass = mass + A * 7850 * F(1, 10**9)
    c.eq('area of the cracked section', gp.area, area, atol=1e-2)
    c.eq('reinforcement area', gp.area_reinforcement, sum(area_s), atol=1e-6)
    c.eq('mass', gp.mass, mass, atol=1e-9)
    cy, cz = e[1] / e[0], e[2] / e[0]
    if not given:
        c.eq('centroid on the neutral axis', cs * gp.cz - sn * gp.cy, z0,
             atol=1e-3)
    c.eq('cy', gp.cy, cy, atol=1e-3)
    c.eq('cz', gp.cz, cz, atol=1e-3)
    for nm, t, k in (('', tot, 1.0), ('e_', e, 2e5)):
        c.eq(nm + 'sy', getattr(gp, nm + 'sy'), t[2], atol=k * 10)
        c.eq(nm + 'sz', getattr(gp, nm + 'sz'), t[1], atol=k * 10)
        t = about(t, cy, cz)
        c.eq(nm + 'iyy_c', getattr(gp, nm + 'iyy_c'), t[4], atol=k * 1e4)
        c.eq(nm + 'izz_c', getattr(gp, nm + 'izz_c'), t[3], atol=k * 1e4)
        c.eq(nm + 'iyz_c', getattr(gp, nm + 'iyz_c'), t[5], atol=k * 1e4)
    # the cracked section returned, in the original axes
    a = sum(s.area for s in cg.geometries)
    c.eq('area of the surfaces returned', a, area, atol=1e-2)
    for (y, z, _d, f), p in zip(bars, cg.point_geometries):
        c.eq('bar returned, y', p.x, y, atol=1e-6)
        c.eq('bar returned, z', p.y, z, atol=1e-6)
        c.eq('bar returned, E', p.material.constitutive_law.get_tangent(
            eps=0), f * Es, rtol=1e-6)
    c.check('all bars kept', len(cg.point_geometries) == len(bars))
    c.check('still reinforced concrete', cg.reinforced_concrete)
    # the section given is kept
    c.check('materials kept', all(
        x.material is y.material for x, y in zip(
            list(g.geometries) + list(g.point_geometries), gs)))


SECS = {
    'rectangle': dict(
        concrete=[([rect(-150, -250, 300, 500)], rect(-150, -250, 300, 500),
                   30000)],
        steel=[], bars=[(-100, -200, 20, 1), (100, -200, 20, 1),
                        (-110, 205, 16, F(9, 10)), (90, 205, 12, 1)],
    ),
    'tee': dict(
        concrete=[([rect(-60, -300, 120, 400), rect(-300, 100, 600, 100)],
                   [(-60, -300), (60, -300), (60, 100), (300, 100),
                    (300, 200), (-300, 200), (-300, 100), (-60, 100)],
                   33000)],
        steel=[], bars=[(-30, -260, 25, 1), (30, -260, 25, 1),
                        (-250, 150, 10, 1), (250, 150, 10, 1)],
    ),
    'topping': dict(
        concrete=[([rect(-100, -200, 200, 350)], rect(-100, -200, 200, 350),
                   37000),
                  ([rect(-300, 150, 600, 80)], rect(-300, 150, 600, 80),
                   25000)],
        steel=[], bars=[(-60, -160, 20, 1), (60, -160, 20, 1),
                        (0, 190, 12, 1)],
    ),
    'plate': dict(
        concrete=[([rect(-150, -250, 300, 500)], rect(-150, -250, 300, 500),
                   30000)],
        steel=[(rect(-100, -260, 200, 10), 1)],
        bars=[(-100, -200, 12, 1), (100, -200, 12, 1)],
    ),
}


@harness('C36', 'cracked', params=[
    dict(sec=s, angle=a) for s in SECS for a in ANG
    if a in ('0', '37') or s in ('rectangle', 'tee')
], bounds='every height of the neutral axis in the section; bars in tension '
    'and compression, two concretes, a steel plate; 6 angles', stubs=STUB,
    outside=OUT)
def cracked_section(c, sec, angle):
    d = SECS[sec]
    _th, cs, sn = ANG[angle]
    hs = sorted({cs * y - sn * x for _p, r, _E in d['concrete']
                 for x, y in r})
    k = c.choice('between', range(len(hs) - 1))
    z0 = c.real(f'z{k}', hs[k] + F(1, 10), hs[k + 1] - F(1, 10))
    run(c, d['concrete'], d['steel'], d['bars'], z0, angle, 200000)


@harness('C36', 'symbolic rectangle', params=[
    dict(free=f) for f in ('width', 'height', 'bar', 'modulus')
], bounds='width, height, position of a bar or stiffness of the concrete '
    'symbolic', stubs=STUB, outside=OUT)
def rectangle(c, free):
    b = c.real('b', 200, 800) if free == 'width' else 300
    h = c.real('h', 300, 900) if free == 'height' else 500
    y = c.real('y', -100, 100) if free == 'bar' else 60
    E = c.real('E', 20000, 45000) if free == 'modulus' else 32000
    r = rect(-b / 2, 0, b, h)
    z0 = h - 100 if free == 'height' else 420
    run(c, [([r], r, E)], [], [(-60, 40, 20, 1), (y, 50, 25, 1),
                               (y, 460 if free != 'height' else 260, 16, 1)],
        z0, '0')


@harness('C36', 'not reinforced concrete', bounds='-', stubs=['shapely'],
         outside=OUT)
def other(c):
    from structuralcodes.geometry import RectangularGeometry
    from structuralcodes.sections import GenericSection
    from structuralcodes.sections import (
        calculate_elastic_cracked_properties as cracked,
    )

    E = c.real('E', 1000, 300000)
    g = RectangularGeometry(100, 200, material(E, 7850))
    c.check('no cracked properties', cracked(GenericSection(g)) is None)


@harness('C36', 'fiber integrator', bounds='any mesh size; rectangle with '
         'two bars and two triangles as mesh', stubs=[
             'triangle.triangulate', *STUB], outside=OUT)
def fiber(c):
    from structuralcodes.geometry import CompoundGeometry, PointGeometry
    from structuralcodes.geometry import SurfaceGeometry
    from structuralcodes.materials.basic import GenericMaterial
    from structuralcodes.materials.constitutive_laws import Elastic
    from structuralcodes.sections import GenericSection, _generic
    from structuralcodes.sections import (
        calculate_elastic_cracked_properties as cracked,
    )

    size = c.real('size', F(1, 1000), 1)
    G = geo.lib(c)
    st = GenericMaterial(7850, Elastic(200000))
    g = CompoundGeometry([
        SurfaceGeometry(G.Polygon(rect(-150, -200, 300, 400)),
                        GenericMaterial(2500, Elastic(30000)), concrete=True),
        PointGeometry((-100, -150), 20, st), PointGeometry((100, -150), 20, st),
    ])
    calls = []

    def mesh(tri, opts=''):
        v = tri['vertices']
        A = abs(area(v[0], v[1], v[2])) + abs(area(v[0], v[2], v[3]))
        calls.append((max_area(c, opts, seen), A))
        return mesh_of(c, v, [(0, 1, 2), (0, 2, 3)])

    sec = GenericSection(g, integrator='fiber', mesh_size=size)
    cls = _generic.GenericSectionCalculator
    old = cls.find_equilibrium_fixed_curvature

    def found(self, geom, n, curv, eps):
        self.integrator.integrate_strain_response_on_geometry(
            geom, [0, curv, 0], mesh_size=self.mesh_size)
        return [-50 * curv, curv, 0]

    cls.find_equilibrium_fixed_curvature = found
    try:
        with mesher(mesh), formatted() as seen:
            gp = cracked(sec)
    finally:
        cls.find_equilibrium_fixed_curvature = old
    c.check('meshed', len(calls) > 1)
    for k, (a, A) in enumerate(calls):
        c.check('largest area given', a is not None)
        c.eq(f'largest area of mesh {k}', a, size * A, rtol=1e-6)
    c.eq('area', gp.area, 300 * 150, atol=1e-3)
