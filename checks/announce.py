"""C37: suspect input is announced by a warning, and only suspect input."""

import importlib
import warnings

from symx import geo, m
from symx.diff import resolve
from symx.harness import harness

from ._sec import mats

P = 'C37'
CODES = {
    'ec2_2004': 'ConcreteEC2_2004', 'ec2_2023': 'ConcreteEC2_2023',
    'mc2010': 'ConcreteMC2010',
}
STRAINS = {
    'ec2_2004': ['eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2', 'eps_c3',
                 'eps_cu3'],
    'ec2_2023': ['eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2'],
    'mc2010': ['eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2', 'eps_c3',
               'eps_cu3'],
}


def announced(fn):
    """The result of fn and the number of warnings it raised."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = fn()
    return r, len(w)


def concrete(code, **kw):
    mod = importlib.import_module('structuralcodes.materials.concrete')
    return announced(
        lambda: getattr(mod, CODES[code])(constitutive_law='elastic', **kw)
    )


@harness(P, 'limit strains of a concrete',
         params=[{'code': k} for k in CODES],
         bounds='fck=30; every limit strain, alone, anywhere in '
         '[-0.3, 0.3]')
def strains(c, code):
    n = c.choice('name', STRAINS[code])
    v = c.real('value', -0.3, 0.3)
    con, w = concrete(code, fck=30, **{n: v})
    c.check('announced from 0.1', (w > 0) == bool(m.ab(v) >= 0.1))
    c.eq('and used as given', getattr(con, n), m.ab(v))


@harness(P, 'exponent of the parabola-rectangle',
         params=[{'code': k} for k in CODES],
         bounds='fck=30; exponent in [0, 10]')
def exponent(c, code):
    v = c.real('value', 0, 10)
    con, w = concrete(code, fck=30, n_parabolic_rectangular=v)
    c.check('announced from 5', (w > 0) == bool(v >= 5))
    c.eq('and used as given', con.n_parabolic_rectangular, v)


@harness(P, 'tensile strength of a concrete',
         params=[{'code': k} for k in ('ec2_2004', 'mc2010')],
         bounds='fck in [12, 90], fctm in [-60, 60]')
def tensile(c, code):
    k, v = c.real('fck', 12, 90), c.real('fctm', -60, 60)
    con, w = concrete(code, fck=k, fctm=v, name='a')
    c.check('announced above half of fck', (w > 0) == bool(m.ab(v) > k / 2))
    c.eq('and used as given', con.fctm, m.ab(v))


@harness(P, 'modulus of a concrete (MC2010)',
         bounds='fck=30, Eci in [1e3, 3e5]')
def modulus(c):
    v = c.real('Eci', 1e3, 3e5)
    con, w = concrete('mc2010', fck=30, Eci=v)
    c.check('announced outside of 1e4 to 1e5',
            (w > 0) == bool(m.OR(v < 1e4, v > 1e5)))
    c.eq('and used as given', con.Eci, v)


@harness(P, 'a concrete of usual values', params=[{'code': k} for k in CODES],
         bounds='fck in [12, 90], partial factor in [1, 2], nothing else '
         'given')
def usual(c, code):
    k, g = c.real('fck', 12, 90), c.real('gamma_c', 1, 2)
    _, w = concrete(code, fck=k, gamma_c=g, name='a')
    c.check('nothing is announced', w == 0)


@harness(P, 'inclination of the compression field (MC2010)',
         bounds='theta in [10, 60], alpha 45 to 90')
def field(c):
    th = c.real('theta', 10, 60)
    al = c.choice('alpha', [45, 60, 75, 90])
    _, w = announced(lambda: resolve('codes.mc2010.v_rds')(
        500, 200, 500, 500, th, al))
    c.check('announced outside of 20 to 45',
            (w > 0) == bool(m.OR(th < 20, th > 45)))


@harness(P, 'shear without reinforcement (MC2010)',
         bounds='levels 1 and 2, fck in [20, 80]')
def unreinforced(c):
    lvl = c.choice('level', [1, 2])
    k = c.real('fck', 20, 80)
    mod = importlib.import_module('structuralcodes.codes.mc2010')
    loads = mod.create_load_dict(1e6, 1e5, 0, 0)
    _, w = announced(lambda: mod.v_rd(
        lvl, False, k, 400, 200, 16, 200000, 1000, loads))
    c.check('nothing is announced', w == 0)


@harness(P, 'coordinates of a bar', bounds='one to three coordinates')
def coordinates(c):
    from structuralcodes.geometry import PointGeometry

    k = c.choice('number', [1, 2, 3])
    xs = [c.real(f'x{i}', -500, 500) for i in range(k)]
    if k == 1:
        c.check('one coordinate is refused', c.raises(
            lambda: PointGeometry(xs, 20, mats()[0])))
        return
    p, w = announced(lambda: PointGeometry(xs, 20, mats()[0]))
    c.check('announced beyond two', (w > 0) == (k > 2))
    c.eq('x', p.x, xs[0])
    c.eq('y', p.y, xs[1])


@harness(P, 'shear of level 3 without reinforcement (MC2010)',
         bounds='level 3, fck in [20, 80]')
def third(c):
    k = c.real('fck', 20, 80)
    mod = importlib.import_module('structuralcodes.codes.mc2010')
    loads = mod.create_load_dict(1e6, 1e5, 0, 0)

    def run():
        try:
            return mod.v_rd(
                3, False, k, 400, 200, 16, 200000, 1000, loads)
        except ValueError:
            return None

    _, w = announced(run)
    c.check('announced', w > 0)


@harness(P, 'perimeter of separate parts', stubs=['shapely'],
         outside='shapely (stand-in symx/geo.py)',
         bounds='two rectangles, gap 0 or in [1, 100], dimensions in [50, 500]')
def parts(c):
    from structuralcodes.geometry import CompoundGeometry, SurfaceGeometry
    from structuralcodes.sections import GenericSection

    w, h = c.real('w', 50, 500), c.real('h', 50, 500)
    apart = c.choice('apart', [True, False])
    gap = c.real('gap', 1, 100) if apart else 0
    s = [SurfaceGeometry(geo.lib(c).Polygon([(x, 0), (x + w, 0), (x + w, h), (x, h)]),
                         mats()[1]) for x in (0, w + gap)]
    sec = GenericSection(CompoundGeometry(s))
    gp, k = announced(lambda: sec.gross_properties)
    c.check('announced when they do not touch', (k > 0) == apart)
    if apart:
        c.eq('no perimeter', gp.perimeter, 0)
    else:
        c.eq('perimeter', gp.perimeter, 4 * w + 2 * h)
