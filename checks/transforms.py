"""C18: geometry transforms."""

from symx import geo, m
from symx.harness import harness

from ._sec import eq_pts, mats, rings

OUT = (
    'shapely itself (stand-in symx/geo.py, compared with the real library at '
    'the witness of every path); floating point rounding'
)


def build(c, kind):
    """Geometry with symbolic vertices: (object, surfaces, points)."""
    from structuralcodes.geometry import (
        CompoundGeometry, PointGeometry, RectangularGeometry,
        SurfaceGeometry,
    )

    G = geo.lib(c)
    s, con = mats()
    x0, y0 = c.real('x0', -1000, 1000), c.real('y0', -1000, 1000)
    w, h = c.real('w', 50, 500), c.real('h', 50, 500)
    # an oblique quadrilateral with a triangular hole
    quad = [
        (x0, y0), (x0 + 2 * w, y0 + 10), (x0 + w, y0 + 2 * h),
        (x0 - w, y0 + h),
    ]
    hole = [
        (x0 + 10, y0 + h / 2), (x0 + w / 2, y0 + h / 2),
        (x0 + w / 2, y0 + h),
    ]
    px, py = c.real('px', -500, 500), c.real('py', -500, 500)

    def surf(name, label):
        return SurfaceGeometry(
            G.Polygon(quad, [hole]), con, concrete=True, name=name,
            group_label=label,
        )

    def point(name, label, k=1):
        return PointGeometry(
            (px * k, py), 16, s, name=name, group_label=label
        )

    if kind == 'surface':
        g = surf('web', 'A')
        return g, [g], []
    if kind == 'rectangle':
        g = RectangularGeometry(
            w, h, con, origin=(x0, y0), name='rect', group_label='R'
        )
        return g, [g], []
    if kind == 'point':
        g = point('bar', 'B')
        return g, [], [g]
    a, b = surf('web', 'A'), RectangularGeometry(
        w, h, s, origin=(px, py), name='plate', group_label='P'
    )
    p, q = point('bar', 'B'), point('bar2', 'C', 2)
    g = CompoundGeometry([a, b, p, q])
    return g, [a, b], [p, q]


def parts(g):
    if hasattr(g, 'geometries'):
        return list(g.geometries), list(g.point_geometries)
    if hasattr(g, 'polygon'):
        return [g], []
    return [], [g]


def snapshot(surfs, points):
    return (
        [rings(s.polygon) for s in surfs],
        [(p.x, p.y) for p in points],
    )


def verify(c, g, new, surfs, points, before, f):
    ns, np_ = parts(new)
    c.check('number of surfaces', len(ns) == len(surfs))
    c.check('number of bars', len(np_) == len(points))
    for i, (o, n) in enumerate(zip(surfs, ns)):
        for k, (ro, rn) in enumerate(
            zip(before[0][i], rings(n.polygon))
        ):
            eq_pts(c, f'surface {i} ring {k}', rn, [f(*p) for p in ro])
        c.eq(f'surface {i} area', n.area, o.area)
        c.check(f'surface {i} material', n.material is o.material)
        c.check(f'surface {i} density', n.density == o.density)
        c.check(f'surface {i} concrete flag', n.concrete == o.concrete)
        c.check(f'surface {i} name', n.name == o.name)
        c.check(f'surface {i} label', n.group_label == o.group_label)
    for i, (o, n) in enumerate(zip(points, np_)):
        wx, wy = f(*before[1][i])
        c.eq(f'bar {i} x', n.x, wx, atol=1e-6)
        c.eq(f'bar {i} y', n.y, wy, atol=1e-6)
        c.check(f'bar {i} diameter', n.diameter == o.diameter)
        c.eq(f'bar {i} area', n.area, o.area)
        c.check(f'bar {i} material', n.material is o.material)
        c.check(f'bar {i} density', n.density == o.density)
        c.check(f'bar {i} name', n.name == o.name)
        c.check(f'bar {i} label', n.group_label == o.group_label)
    # the original is untouched
    after = snapshot(*parts(g))
    for i, (ra, rb) in enumerate(zip(after[0], before[0])):
        for k, (u, v) in enumerate(zip(ra, rb)):
            eq_pts(c, f'original {i} ring {k}', u, v)
    for i, (u, v) in enumerate(zip(after[1], before[1])):
        c.eq(f'original bar {i} x', u[0], v[0], atol=1e-9)
        c.eq(f'original bar {i} y', u[1], v[1], atol=1e-9)
    c.check('a new object is returned', new is not g)


KINDS = [{'kind': k} for k in ('surface', 'rectangle', 'point', 'compound')]
B = 'vertices, bars and transform parameters symbolic; 4 geometry kinds'


@harness('C18', 'translate', params=KINDS, bounds=B, outside=OUT,
         stubs=['shapely'])
def translate(c, kind):
    g, s, p = build(c, kind)
    before = snapshot(s, p)
    dx, dy = c.real('dx', -1000, 1000), c.real('dy', -1000, 1000)
    how = c.choice('how', ['both', 'dx only', 'dy only'])
    if how == 'both':
        new = g.translate(dx, dy)
    elif how == 'dx only':
        new, dy = g.translate(dx=dx), 0
    else:
        new, dx = g.translate(dy=dy), 0
    verify(c, g, new, s, p, before, lambda x, y: (x + dx, y + dy))


@harness('C18', 'rotate', params=KINDS, bounds=B + '; angle in radians and '
         'degrees within two turns, about the origin and about a symbolic '
         'point',
         outside=OUT, stubs=['shapely'])
def rotate(c, kind):
    g, s, p = build(c, kind)
    before = snapshot(s, p)
    how = c.choice(
        'how', ['radians', 'point', 'degrees', 'degrees point', 'default']
    )
    cx = cy = 0
    if 'point' in how:
        cx, cy = c.real('cx', -500, 500), c.real('cy', -500, 500)
    if 'degrees' in how:
        a = c.real('deg', -720, 720)
        rad = a * 3.141592653589793 / 180
        new = (
            g.rotate(a, point=(cx, cy), use_radians=False)
            if 'point' in how else g.rotate(a, use_radians=False)
        )
    else:
        a = rad = c.real('rad', -12.6, 12.6)
        new = g.rotate(a, (cx, cy)) if 'point' in how else g.rotate(a)
    if how == 'default':
        new = g.rotate()
        rad = 0
    cs, sn = m.cos(rad), m.sin(rad)
    verify(
        c, g, new, s, p, before,
        lambda x, y: (
            cx + cs * (x - cx) - sn * (y - cy),
            cy + sn * (x - cx) + cs * (y - cy),
        ),
    )


@harness('C18', 'mirror', params=KINDS, bounds=B + '; axis through two '
         'symbolic points', outside=OUT, stubs=['shapely'])
def mirror(c, kind):
    G = geo.lib(c)
    g, s, p = build(c, kind)
    before = snapshot(s, p)
    ax, ay = c.real('ax', -500, 500), c.real('ay', -500, 500)
    bx, by = c.real('bx', -500, 500), c.real('by', -500, 500)
    ux, uy = bx - ax, by - ay
    L2 = ux * ux + uy * uy
    c.assume(L2 >= 1)
    axis = G.LineString([(ax, ay), (bx, by)])
    new = g.mirror(axis)

    def f(x, y):
        t = ((x - ax) * ux + (y - ay) * uy) / L2
        return 2 * (ax + t * ux) - x, 2 * (ay + t * uy) - y

    verify(c, g, new, s, p, before, f)


@harness('C18', 'mirror_rejects', params=KINDS, bounds='all kinds',
         outside=OUT, stubs=['shapely'])
def mirror_rejects(c, kind):
    g, _s, _p = build(c, kind)
    ok = c.raises(g.mirror, ((0, 0), (1, 1)), exc=TypeError)
    c.check('an axis that is no line is refused', ok)


@harness('C18', 'compose', params=KINDS, bounds=B + '; translate, rotate '
         'and undo', outside=OUT, stubs=['shapely'])
def compose(c, kind):
    g, s, p = build(c, kind)
    before = snapshot(s, p)
    dx, dy = c.real('dx', -1000, 1000), c.real('dy', -1000, 1000)
    a = c.real('rad', -6.3, 6.3)
    new = g.translate(dx, dy).rotate(a).rotate(-a).translate(-dx, -dy)
    verify(c, g, new, s, p, before, lambda x, y: (x, y))
