"""C09: fiber integration."""

import math
import re
import sys
from contextlib import contextmanager
from fractions import Fraction as F

import numpy as np

from symx import core as K
from symx import geo
from symx.harness import harness

from .marin_section import LAWS, L, deriv, make, poly

OUT = (
    'the Triangle library (stand-in that returns a mesh of the harness); '
    'shapely (stand-in symx/geo.py, compared with the real library at the '
    'witness of every path); floating point rounding'
)
STUBS = ['triangle.triangulate', 'shapely']


@contextmanager
def mesher(fn):
    """Replaces triangle.triangulate wherever it is known."""
    import triangle

    real = triangle.triangulate
    saved = [(triangle, 'triangulate')]
    for name, m in list(sys.modules.items()):
        if name.startswith('structuralcodes') and m is not None:
            for k, v in list(vars(m).items()):
                if v is real:
                    saved.append((m, k))
    for m, k in saved:
        setattr(m, k, fn)
    try:
        yield
    finally:
        for m, k in saved:
            setattr(m, k, real)


def mesh_of(c, pts, tris):
    return {
        'vertices': np.array(pts, dtype=object if c.symbolic else float),
        'triangles': np.array(tris),
    }


def area(a, b, d):
    return ((b[0] - a[0]) * (d[1] - a[1])
            - (b[1] - a[1]) * (d[0] - a[0])) / 2


def fibers(pts, tris):
    """[(y, z, area)] of the triangles."""
    out = []
    for i, j, k in tris:
        p = pts[i], pts[j], pts[k]
        A = area(*p)
        out.append(((p[0][0] + p[1][0] + p[2][0]) / 3,
                    (p[0][1] + p[1][1] + p[2][1]) / 3,
                    A if bool(A >= 0) else -A))
    return out


def law_value(pieces, e, modulus):
    for a, b, cs in pieces:
        if (a is None or bool(e >= a)) and (b is None or bool(e <= b)):
            return poly(deriv(cs) if modulus else cs, e)
    return 0


def clear(c, pieces, e):
    """Not at a kink or limit."""
    for a, b, _cs in pieces:
        for q in (a, b):
            if q is not None:
                c.assume((e - q > 2e-6) | (q - e > 2e-6))


def expected(c, fib, strain, modulus):
    """fib: [(y, z, area, pieces of the law)]."""
    out = {}
    e, ky, kz = strain
    for y, z, A, pcs in fib:
        eps = e - kz * y + ky * z
        clear(c, pcs, eps)
        v = law_value(pcs, eps, modulus) * A
        arms = [1, z, -y]
        for i in range(3):
            if not modulus:
                out[i] = out.get(i, 0) + v * arms[i]
                continue
            for j in range(3):
                out[i, j] = out.get((i, j), 0) + v * arms[i] * arms[j]
    return out


def compare(c, got, want, modulus, tol=None):
    # exact but for the products of constants
    rt = 0 if c.symbolic else 1e-7
    if not modulus:
        for i, nm in enumerate(('N', 'My', 'Mz')):
            c.eq(nm, got[i], want[i], atol=tol or 1e-2, rtol=rt)
        c.check('three forces and the mesh', len(got) == 4)
        return
    for (i, j), v in want.items():
        c.eq(f'stiffness {i}{j}', got[0][i][j], v, atol=tol or 1.0, rtol=rt)
        c.eq(f'symmetry {i}{j}', got[0][i][j], got[0][j][i], atol=tol or 1.0,
             rtol=rt)


RECT = [(-100, -200), (140, -200), (140, 200), (-100, 200)]


def integrate(c, geom, strain, modulus, data=None, **kw):
    from structuralcodes.sections.section_integrators import FiberIntegrator

    return FiberIntegrator().integrate_strain_response_on_geometry(
        geom, strain, integrate='modulus' if modulus else 'stress',
        integration_data=data, **kw)


@harness('C09', 'any mesh', params=[
    dict(modulus=m, bars=b) for m in (False, True) for b in (0, 1, 2)
], bounds='elastic surface and bars; meshes of 2 triangles with any '
    'vertices; any strain profile; up to 2 bars of the same or other '
    'material anywhere', stubs=STUBS, outside=OUT, budget=100)
def any_mesh(c, modulus, bars):
    mesh_anywhere(c, modulus, bars)


@harness('C09', 'any mesh in metres', params=[
    dict(modulus=m, bars=b) for m in (False, True) for b in (0, 1)
], bounds='as any mesh, with all dimensions divided by 1000', stubs=STUBS,
    outside=OUT, budget=100)
def any_mesh_metres(c, modulus, bars):
    mesh_anywhere(c, modulus, bars, 1000, 1e-8)


def mesh_anywhere(c, modulus, bars, unit=1, tol=None):
    q = L()
    # powers of two: the products with the float areas are exact
    con, st = q.Elastic(32768), q.Elastic(262144)
    bl, fib = [], []
    d = 500 / unit

    def at(x):
        return x if unit == 1 else x / unit

    for k in range(bars):
        y, z = c.real(f'y{k}', -d, d), c.real(f'z{k}', -d, d)
        lw = (st, con)[k and c.choice(f'law {k}', [0, 1])]
        bl.append((y, z, at(20), lw))
        fib.append((y, z, None,
                    [(None, None, [0, 32768 if lw is con else 262144])]))
    g = make(c, [(([(at(x), at(y)) for x, y in RECT], ()), con)], bl)
    fib = [(y, z, p.area, pcs)
           for (y, z, _A, pcs), p in zip(fib, g.point_geometries)]
    pts = [(c.real('v0', -d, d), c.real('w0', -d, d)), (at(-100), at(30)),
           (at(200), c.real('w2', -d, d)), (at(50), at(140))]
    tris = [(0, 1, 2), (3, 2, 1)]
    own = [(y, z, A, [(None, None, [0, 32768])])
           for y, z, A in fibers(pts, tris)]
    strain = [c.real('e', -1e-3, 1e-3),
              c.real('ky', -1e-5 * unit, 1e-5 * unit),
              c.real('kz', -1e-5 * unit, 1e-5 * unit)]
    with mesher(lambda tri, opts='': mesh_of(c, pts, tris)):
        got = integrate(c, g, strain, modulus)
    compare(c, got, expected(c, own + fib, strain, modulus), modulus, tol)
    with mesher(None):
        again = integrate(c, g, strain, modulus, got[-1])
    for i in range(3):
        if modulus:
            for j in range(3):
                c.eq('mesh given', again[0][i][j], got[0][i][j],
                     atol=tol or 1e-2)
        else:
            c.eq('mesh given', again[i], got[i], atol=tol or 1e-4)


@harness('C09', 'laws', params=[
    dict(law=n, modulus=m, direction=d) for n in LAWS if n != 'elastic'
    for m in (False, True) for d in ((1, 0), (0, 1), (-3, 4)) if n != 'user' or 0 in d
], bounds='3 triangles and 2 bars with laws with kinks; any axial strain '
    'and curvature in 3 directions', stubs=STUBS, outside=OUT, budget=100)
def laws(c, law, modulus, direction):
    con, pcs = LAWS[law]()
    st, spc = LAWS['plastic']()
    g = make(c, [((RECT, ()), con)], [
        (-70, -160, 20, st), (110, 170, 12, st)])
    pts = [(-100, -200), (140, -200), (140, 200), (-100, 200), (0, 10)]
    tris = [(0, 1, 4), (1, 2, 4), (3, 0, 4)]
    k = c.real('k', -2e-5, 2e-5)
    strain = [c.real('e', -5e-3, 5e-3), k * direction[0], k * direction[1]]
    with mesher(lambda tri, opts='': mesh_of(c, pts, tris)):
        got = integrate(c, g, strain, modulus)
    fib = [(y, z, A, pcs) for y, z, A in fibers(
        [(F(a), F(b)) for a, b in pts], tris)]
    fib += [(-70, -160, F(math.pi) * 100, spc),
            (110, 170, F(math.pi) * 36, spc)]
    compare(c, got, expected(c, fib, strain, modulus), modulus)


@contextmanager
def formatted():
    K.FORMATTED = []
    try:
        yield K.FORMATTED
    finally:
        K.FORMATTED = None


def max_area(c, opts, seen):
    """The area that Triangle reads from its switches: (read, exact)."""
    m = re.search(r'a<fmt:(\d+)>', opts)
    if m:
        v, spec = seen[int(m.group(1))]
        if spec in ('', 'g', 'r'):
            # exponents are not read
            c.check('largest area written without exponent', v >= 1e-4)
        elif re.fullmatch(r'\.\d+f', spec):
            c.le('largest area written with enough digits',
                 F(1, 10 ** int(spec[1:-1])), v * F(1, 100))
        elif spec != 'positional':
            raise K.Unsupported(f'format {spec}')
        return v
    m = re.search(r'a([0-9.]*)', opts)
    return float(m.group(1)) if m and m.group(1) else None


def same(c, a, b):
    d = [K.S(p) - K.S(q) if c.symbolic else abs(p - q) for p, q in zip(a, b)]
    if c.symbolic:
        return all(x.is_const() and abs(x.const()) < 1e-9 for x in d)
    return all(x < 1e-9 for x in d)


def inside(ring, p):
    odd = False
    for (xa, ya), (xb, yb) in zip(ring, ring[1:] + ring[:1]):
        if bool(ya > p[1]) != bool(yb > p[1]):
            x = xa + (xb - xa) * (p[1] - ya) / (yb - ya)
            odd ^= bool(x > p[0])
    return odd


def outlines(c, kind):
    h = c.real('h', 300, 900)
    w = c.real('w', 200, 600)
    ext = [(-20, 10), (w, 10), (w, 10 + h), (-20, 10 + h)]
    if kind == 'plain':
        return ext, []
    if kind == 'holes':
        a = c.real('a', 10, 60)
        return ext, [
            [(10, 50), (10 + a, 50), (10 + a, 100), (10, 100)],
            [(100, 50), (150, 50 + a), (110, 200)],
        ]
    t = c.real('t', 5, 60)
    # a hole in the form of an angle
    return ext, [[(10, 50), (150, 50), (150, 50 + t), (10 + t, 50 + t),
                  (10 + t, 250), (10, 250)]]


@harness('C09', 'input of the mesher', params=[
    dict(kind=k) for k in ('plain', 'holes', 'angle')
], bounds='rectangles of any size without holes, with two holes and with a '
    'hole in the form of an angle; mesh size in (0, 1]; two surfaces',
    stubs=STUBS, outside=OUT, budget=100)
def mesh_input(c, kind):
    ext, holes = outlines(c, kind)
    scale = c.choice('scale', [1, F(1, 1000)])
    other = [(-200, -100), (-20, -100), (-20, 0)]
    ext, other = ([(x * scale, y * scale) for x, y in r]
                  for r in (ext, other))
    holes = [[(x * scale, y * scale) for x, y in r] for r in holes]
    size = c.real('mesh_size', 1e-3, 1)
    lw = L().Elastic(30000)
    g = make(c, [((ext, holes), lw), ((other, ()), lw)], [])
    calls = []

    def mesh(tri, opts=''):
        calls.append((tri, opts))
        return mesh_of(c, [(0, 0), (1, 0), (0, 1)], [(0, 1, 2)])

    with mesher(mesh), formatted() as seen:
        integrate(c, g, [0, 0, 0], False, mesh_size=size)
    c.check('one mesh for each surface', len(calls) == 2)
    A = [abs(sum(area((0, 0), a, b) for a, b in zip(r, r[1:] + r[:1])))
         for r in (ext, other, *holes)]
    for (tri, opts), rings, a in zip(
        calls, ([ext, *holes], [other]), (A[0] - sum(A[2:]), A[1])
    ):
        c.check('planar straight line graph, zero based',
                opts.startswith('p') and 'z' not in opts)
        # Triangle would keep exactly what the largest area says
        c.eq('largest area', max_area(c, opts, seen), a * size, rtol=1e-2)
        v = [(p[0], p[1]) for p in tri['vertices']]
        edges = [(v[i], v[j]) for i, j in tri['segments']]
        want = [e for r in rings for e in zip(r, r[1:] + r[:1])]
        c.check('number of segments', len(edges) == len(want))
        for p, q in want:
            c.check('edge of the outline is a segment', any(
                same(c, p, s) and same(c, q, t)
                or same(c, p, t) and same(c, q, s) for s, t in edges))
        hp = [(p[0], p[1]) for p in tri.get('holes', [])]
        c.check('one point for each hole', len(hp) == len(rings) - 1)
        for r, p in zip(rings[1:], hp):
            c.check('the point lies in the hole', inside(r, p))


@harness('C09', 'mesh size', bounds='any mesh size', stubs=STUBS, outside=OUT)
def mesh_size(c):
    g = make(c, [((RECT, ()), L().Elastic(30000))], [])
    s = c.real('mesh_size', -3, 3)
    calls = []

    def mesh(tri, opts=''):
        calls.append(opts)
        return mesh_of(c, [(0, 0), (1, 0), (0, 1)], [(0, 1, 2)])

    with mesher(mesh), formatted():
        c.assume((s <= 0) | (s > 1e-3))
        try:
            integrate(c, g, [0, 0, 0], False, mesh_size=s)
        except ValueError:
            c.check('rejected', (s <= 0) | (s > 1))
            c.check('nothing meshed', not calls)
            return
    c.check('accepted', (s > 0) & (s <= 1))
