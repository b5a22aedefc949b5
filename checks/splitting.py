"""C20: splitting surfaces by a line and cutting strips."""

import math

from symx import geo, m
from symx.harness import harness

from ._sec import NAMES, mats, pmoments, rings, signed_moments

OUT = (
    'shapely itself (stand-in symx/geo.py, compared with the real library at '
    'the witness of every path); floating point rounding; lines that end '
    'inside the surface'
)

RECT = [(-150, -250), (150, -250), (150, 250), (-150, 250)]
TEE = [
    (-50, -300), (50, -300), (50, 100), (300, 100), (300, 200), (-300, 200),
    (-300, 100), (-50, 100),
]
YOU = [
    (-200, -200), (200, -200), (200, 200), (120, 200), (120, -100),
    (-120, -100), (-120, 200), (-200, 200),
]
TRI = [(-100, -80), (240, -10), (30, 310)]
HOLE = [(-60, -90), (60, -90), (40, 70)]


def surface(c, pts, holes=()):
    from structuralcodes.geometry import SurfaceGeometry

    G = geo.lib(c)
    return SurfaceGeometry(
        G.Polygon(pts, [list(h) for h in holes]), mats()[1]
    )


def moment_tol(n, unit=1):
    if n == 'area':
        return 1e-1 / unit ** 2
    return 1e2 / unit ** 3 if n in ('int y', 'int z') else 1e5 / unit ** 4


def verify(c, g, above, below, p, d, scale=1.0, unit=1):
    """d: direction of the line; above is to its left."""
    want = pmoments(g.polygon)
    tot = [0] * 6
    for name, parts, s in (('above', above, 1), ('below', below, -1)):
        for part in parts:
            rs = rings(part)
            mom = pmoments(part)
            tot = [a + b for a, b in zip(tot, mom)]
            for r in rs:
                for v in r:
                    dist = d[0] * (v[1] - p[1]) - d[1] * (v[0] - p[0])
                    c.le(f'{name}: every vertex on its side', 0, s * dist,
                         atol=1e-4 * scale / unit)
    for n, a, b in zip(NAMES, tot, want):
        c.eq(f'sum of the parts: {n}', a, b, atol=moment_tol(n, unit))
    # with parts on both sides exactly when vertices are on both sides
    ds = [
        d[0] * (v[1] - p[1]) - d[1] * (v[0] - p[0])
        for v in rings(g.polygon)[0]
    ]
    if any(bool(x > 0.1 / unit) for x in ds):
        c.check('something above', len(above) > 0)
    if any(bool(x < -0.1 / unit) for x in ds):
        c.check('something below', len(below) > 0)


SHAPES = {
    'rectangle': (RECT, ()), 'tee': (TEE, ()), 'u': (YOU, ()),
    'triangle': (TRI, ()), 'hole': (RECT, (HOLE,)),
}
ANG = {
    '0': 0.0, '30': math.pi / 6, '90': math.pi / 2, '-90': -math.pi / 2,
    '135': 3 * math.pi / 4, '180': math.pi, '-20': -math.pi / 9,
    '250': 250 * math.pi / 180,
}


@harness('C20', 'split at fixed angles',
         params=[{'shape': s} for s in SHAPES],
         bounds='5 outlines (two nonconvex, one with a hole), every line '
         'position, 8 angles', stubs=['shapely'], outside=OUT)
def fixed(c, shape):
    pts, holes = SHAPES[shape]
    g = surface(c, pts, holes)
    name = c.choice('angle', list(ANG))
    th = ANG[name]
    px, py = c.real('px', -400, 400), c.real('py', -400, 400)
    above, below = g.split(((px, py), th))
    cs, sn = math.cos(th), math.sin(th)
    if abs(cs) < 1e-8:
        d = (0, 1)
    else:
        s = 1 if cs > 0 else -1
        d = (cs * s, sn * s)
    verify(c, g, above, below, (px, py), d)


@harness('C20', 'split at any angle',
         params=[{'shape': s} for s in ('rectangle', 'tee', 'u')],
         bounds='3 outlines, line through the fixed point (13, 7) at every '
         'angle with |cos| > 0.02', stubs=['shapely'], outside=OUT,
         budget=120)
def any_angle(c, shape):
    pts, holes = SHAPES[shape]
    g = surface(c, pts, holes)
    th = c.real('theta', -3.2, 6.3)
    cs, sn = m.cos(th), m.sin(th)
    c.assume(abs(cs) >= 0.02)
    p = (13, 7)
    above, below = g.split((p, th))
    # from left to right
    verify(c, g, above, below, p, (1, sn / cs), scale=100)


@harness('C20', 'split of any rectangle', bounds='symbolic size and '
         'position, every line position, 4 angles', stubs=['shapely'],
         outside=OUT, budget=120)
def any_rectangle(c):
    from structuralcodes.geometry import RectangularGeometry

    w, h = c.real('w', 50, 500), c.real('h', 50, 500)
    x, y = c.real('x', -300, 300), c.real('y', -300, 300)
    g = RectangularGeometry(w, h, mats()[1], origin=(x, y))
    name = c.choice('angle', ['0', '30', '90', '135'])
    th = ANG[name]
    px, py = c.real('px', -600, 600), c.real('py', -600, 600)
    above, below = g.split(((px, py), th))
    cs, sn = math.cos(th), math.sin(th)
    if abs(cs) < 1e-8:
        d = (0, 1)
    else:
        s = 1 if cs > 0 else -1
        d = (cs * s, sn * s)
    verify(c, g, above, below, (px, py), d)


@harness('C20', 'split by a line object',
         params=[{'shape': s} for s in SHAPES],
         bounds='5 outlines, lines from a symbolic point on the left to a '
         'symbolic point on the right, and the reverse', stubs=['shapely'],
         outside=OUT)
def by_line(c, shape):
    G = geo.lib(c)
    pts, holes = SHAPES[shape]
    g = surface(c, pts, holes)
    y0, y1 = c.real('y0', -400, 400), c.real('y1', -400, 400)
    a, b = (-500, y0), (500, y1)
    if c.choice('reverse', [False, True]):
        a, b = b, a
    above, below = g.split(G.LineString([a, b]))
    d = (b[0] - a[0], b[1] - a[1])
    verify(c, g, above, below, a, d, scale=1000)


def clip(r, p, d):
    """Part of a convex ring to the left of the line p + t*d."""
    out = []
    n = len(r)
    ds = [d[0] * (v[1] - p[1]) - d[1] * (v[0] - p[0]) for v in r]
    for i in range(n):
        j = (i + 1) % n
        if bool(ds[i] >= 0):
            out.append(r[i])
        if bool(ds[i] > 0) != bool(ds[j] > 0) and not (
            bool(ds[i] == 0) or bool(ds[j] == 0)
        ):
            t = ds[i] / (ds[i] - ds[j])
            out.append(tuple(
                r[i][k] + t * (r[j][k] - r[i][k]) for k in (0, 1)
            ))
    return out


def strip(c, pts, holes, lo, hi):
    """Moments of the part of the polygon between the lines (exact, by
    clipping signed triangles of a fan).
    """
    tot = [0] * 6
    for k, r in enumerate([pts, *holes]):
        n = len(r)
        for i in range(1, n - 1):
            tri = [r[0], r[i], r[i + 1]]
            a2 = (tri[1][0] - tri[0][0]) * (tri[2][1] - tri[0][1]) - (
                tri[1][1] - tri[0][1]
            ) * (tri[2][0] - tri[0][0])
            if a2 == 0:
                continue
            s = 1 if a2 > 0 else -1
            if s < 0:
                tri = [tri[0], tri[2], tri[1]]
            q = clip(tri, *lo)
            if len(q) >= 3:
                q = clip(q, *hi)
            if len(q) < 3:
                continue
            t = signed_moments(q)
            s = s if k == 0 else -s
            tot = [a + s * b for a, b in zip(tot, t)]
    return tot


def moments_of(res):
    """Moments of a polygon or a collection of polygons."""
    if hasattr(res, 'geoms'):
        tot = [0] * 6
        for q in res.geoms:
            tot = [a + b for a, b in zip(tot, moments_of(q))]
        return tot
    if res.is_empty or not hasattr(res, 'exterior'):
        return [0] * 6
    return pmoments(res)


@harness('C20', 'strip between two lines',
         params=[{'shape': s} for s in SHAPES],
         bounds='5 outlines, every pair of horizontal or vertical lines and '
         'pairs of sloping lines that do not cross; given as tuple or '
         'MultiLineString', stubs=['shapely'], outside=OUT, budget=120)
def two_lines(c, shape):
    G = geo.lib(c)
    pts, holes = SHAPES[shape]
    g = surface(c, pts, holes)
    y0, dy = c.real('y0', -400, 400), c.real('dy', 1, 600)
    kind = c.choice('kind', ['horizontal', 'vertical', 'sloping'])
    if kind == 'horizontal':
        lo = [(-500, y0), (500, y0)]
        hi = [(-500, y0 + dy), (500, y0 + dy)]
    elif kind == 'vertical':
        lo = [(-y0, -500), (-y0, 500)]
        hi = [(-y0 - dy, -500), (-y0 - dy, 500)]
    else:
        lo = [(-500, y0), (500, y0 + 250)]
        hi = [(-500, y0 + dy), (500, y0 + dy + 125 + 250)]
    lines = (G.LineString(lo), G.LineString(hi))
    if c.choice('multi', [False, True]):
        lines = G.MultiLineString(lines)
    got = g.split_two_lines(lines)
    c.check('a polygon or polygons',
            got.geom_type in ('Polygon', 'MultiPolygon'))
    got = moments_of(got)
    d0 = (lo[1][0] - lo[0][0], lo[1][1] - lo[0][1])
    d1 = (hi[0][0] - hi[1][0], hi[0][1] - hi[1][1])
    want = strip(c, pts, holes, (lo[0], d0), (hi[0], d1))
    for n, a, b in zip(NAMES, got, want):
        c.eq(n, a, b, atol=moment_tol(n))


@harness('C20', 'strip needs two lines', bounds='one and three lines',
         stubs=['shapely'], outside=OUT)
def wrong_lines(c):
    G = geo.lib(c)
    g = surface(c, RECT)
    ln = G.LineString([(-500, 0), (500, 0)])
    for k in (1, 3):
        c.check(f'{k} lines refused', c.raises(
            g.split_two_lines, (ln,) * k, exc=RuntimeError))


@harness('C20', 'line through a point at an angle', bounds='symbolic box, '
         'point and angle: vertical or |cos| > 1e-6',
         stubs=['shapely'], outside=OUT)
def line(c):
    from structuralcodes.geometry import create_line_point_angle

    x0, y0 = c.real('x0', -500, 500), c.real('y0', -500, 500)
    w, h = c.real('w', 10, 500), c.real('h', 10, 500)
    px, py = c.real('px', -500, 500), c.real('py', -500, 500)
    box = (x0, y0, x0 + w, y0 + h)
    kind = c.choice('kind', ['any', 'steep', 'up', 'down'])
    if kind in ('any', 'steep'):
        th = c.real('theta', -3.2, 6.3)
        cs, sn = m.cos(th), m.sin(th)
        c.assume(abs(cs) >= (0.01 if kind == 'any' else 1e-6))
        c.assume(abs(cs) <= (1 if kind == 'any' else 0.01))
    else:
        th = math.pi / 2 if kind == 'up' else -math.pi / 2
        cs, sn = 0, 1 if kind == 'up' else -1
    ln = create_line_point_angle((px, py), th, box)
    (ax, ay), (bx, by) = ln.coords[0], ln.coords[1]
    for n, (x, y) in (('start', (ax, ay)), ('end', (bx, by))):
        c.eq(f'{n} on the line', (x - px) * sn, (y - py) * cs, atol=1e-5)
    x1, y1 = x0 + w, y0 + h
    c.check('reaches beyond the box on both sides', m.OR(
        m.AND(ax < x0, bx > x1), m.AND(bx < x0, ax > x1),
        m.AND(ay < y0, by > y1), m.AND(by < y0, ay > y1),
    ))


def metres(shape):
    pts, holes = SHAPES[shape]

    def f(r):
        return [(x / 1000, y / 1000) for x, y in r]

    return f(pts), [f(r) for r in holes]


@harness('C20', 'split, dimensions in metres',
         params=[{'shape': s} for s in SHAPES],
         bounds='5 outlines in metres, every line position, 3 angles',
         stubs=['shapely'], outside=OUT)
def fixed_metres(c, shape):
    g = surface(c, *metres(shape))
    name = c.choice('angle', ['30', '90', '180'])
    th = ANG[name]
    px, py = c.real('px', -0.4, 0.4), c.real('py', -0.4, 0.4)
    above, below = g.split(((px, py), th))
    cs, sn = math.cos(th), math.sin(th)
    if abs(cs) < 1e-8:
        d = (0, 1)
    else:
        s = 1 if cs > 0 else -1
        d = (cs * s, sn * s)
    verify(c, g, above, below, (px, py), d, unit=1000)


@harness('C20', 'strip, dimensions in metres',
         params=[{'shape': s} for s in ('rectangle', 'tee')],
         bounds='2 outlines in metres, every pair of horizontal or vertical '
         'lines at least 1 mm apart, the upper one first or in opposite '
         'directions',
         stubs=['shapely'], outside=OUT, budget=120)
def two_lines_metres(c, shape):
    G = geo.lib(c)
    pts, holes = metres(shape)
    g = surface(c, pts, holes)
    y0, dy = c.real('y0', -0.4, 0.4), c.real('dy', 0.001, 0.6)
    if c.choice('kind', ['horizontal', 'vertical']) == 'horizontal':
        lo = [(-0.5, y0), (0.5, y0)]
        hi = [(-0.5, y0 + dy), (0.5, y0 + dy)]
    else:
        lo = [(-y0, -0.5), (-y0, 0.5)]
        hi = [(-y0 - dy, -0.5), (-y0 - dy, 0.5)]
    how = c.choice('order', ['upper first', 'opposed'])
    lines = {
        'upper first': (hi, lo),
        'opposed': (lo, hi[::-1]),
    }[how]
    got = moments_of(g.split_two_lines(
        tuple(G.LineString(x) for x in lines)))
    d0 = (lo[1][0] - lo[0][0], lo[1][1] - lo[0][1])
    d1 = (hi[0][0] - hi[1][0], hi[0][1] - hi[1][1])
    want = strip(c, pts, holes, (lo[0], d0), (hi[0], d1))
    for n, a, b in zip(NAMES, got, want):
        c.eq(n, a, b, atol=moment_tol(n, 1000))
