"""C19: composition of geometries, standard shapes, reinforcement layouts."""

import math

from symx import geo, m
from symx.harness import harness

from ._sec import eq_pts, mats, moments, ring, rings

OUT = (
    'shapely itself (stand-in symx/geo.py, compared with the real library at '
    'the witness of every path); floating point rounding'
)
PI = math.pi


def base(c):
    """A concrete-like surface with one bar and a plain surface."""
    from structuralcodes.geometry import (
        CompoundGeometry, PointGeometry, RectangularGeometry,
    )

    s, con = mats()
    kind = c.choice('base', ['surface', 'compound'])
    r = RectangularGeometry(
        2000, 2000, con, concrete=True, name='body', group_label='L'
    )
    if kind == 'surface':
        return r, [r], [], s
    p = PointGeometry((5, 7), 12, s, name='old', group_label='old')
    return CompoundGeometry([r, p]), [r], [p], s


def verify_bars(c, g, surfs, points, want, mat, label, dia):
    """want: positions of the added bars, in order."""
    c.check('surfaces kept', [x.name for x in g.geometries] == [
        x.name for x in surfs
    ])
    for a, b in zip(g.geometries, surfs):
        c.check('surface material', a.material is b.material)
        c.check('surface concrete flag', a.concrete == b.concrete)
        c.check('surface label', a.group_label == b.group_label)
        eq_pts(c, 'surface', ring(a.polygon.exterior),
               ring(b.polygon.exterior))
    n0 = len(points)
    new = list(g.point_geometries)
    c.check('number of bars', len(new) == n0 + len(want))
    for a, b in zip(new, points):
        c.check('existing bar kept', a.name == b.name and a.x == b.x
                and a.y == b.y and a.diameter == b.diameter)
    for k, (p, w) in enumerate(zip(new[n0:], want)):
        c.eq(f'bar {k} x', p.x, w[0], atol=1e-6)
        c.eq(f'bar {k} y', p.y, w[1], atol=1e-6)
        c.eq(f'bar {k} diameter', p.diameter, dia)
        c.eq(f'bar {k} area', p.area, PI / 4 * dia * dia)
        c.check(f'bar {k} material', p.material is mat)
        c.check(f'bar {k} label', p.group_label == label)


@harness('C19', 'add_reinforcement', bounds='symbolic position and diameter',
         stubs=['shapely'], outside=OUT)
def add_one(c):
    from structuralcodes.geometry import add_reinforcement

    g, s, p, mat = base(c)
    x, y = c.real('x', -900, 900), c.real('y', -900, 900)
    d = c.real('d', 6, 40)
    new = add_reinforcement(g, (x, y), d, mat, group_label='bottom')
    verify_bars(c, new, s, p, [(x, y)], mat, 'bottom', d)
    new2 = add_reinforcement(new, (y, x), d, mat)
    verify_bars(c, new2, s, list(new.point_geometries), [(y, x)], mat, None,
                d)


def segment(c):
    x0, y0 = c.real('x0', -900, 900), c.real('y0', -900, 900)
    x1, y1 = c.real('x1', -900, 900), c.real('y1', -900, 900)
    L2 = (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0)
    c.assume(L2 >= 100)
    return (x0, y0), (x1, y1), L2


def ends(c):
    return (
        c.choice('first', [True, False]), c.choice('last', [True, False])
    )


def drop(want, first, last):
    n = len(want)
    return [
        w for k, w in enumerate(want)
        if not (k == 0 and not first) and not (k == n - 1 and not last)
    ]


@harness('C19', 'line of n bars', bounds='n = 1..5; symbolic end points; '
         'with and without first and last bar', stubs=['shapely'],
         outside=OUT)
def line_n(c):
    from structuralcodes.geometry import add_reinforcement_line

    g, s, p, mat = base(c)
    a, b, _ = segment(c)
    n = c.choice('n', [1, 2, 3, 5])
    first, last = ends(c)
    new = add_reinforcement_line(
        g, a, b, 20, mat, n=n, first=first, last=last, group_label='row'
    )
    want = [
        (a[0] + (b[0] - a[0]) * k / max(n - 1, 1),
         a[1] + (b[1] - a[1]) * k / max(n - 1, 1))
        for k in range(n)
    ]
    if n == 1 and not (first and last):
        want = []
    else:
        want = drop(want, first, last)
    if not want and not p and n == 1:
        c.check('nothing added', new is g)
        return
    if not want and n <= 2 and new is g:
        c.check('nothing added', True)
        return
    verify_bars(c, new, s, p, want, mat, 'row', 20)


@harness('C19', 'line with spacing', bounds='length over spacing between 1 '
         'and 4.999 and exactly 2; symbolic end points', stubs=['shapely'],
         outside=OUT)
def line_s(c):
    from structuralcodes.geometry import add_reinforcement_line

    g, s, p, mat = base(c)
    a, b, L2 = segment(c)
    sp = c.real('s', 20, 500)
    L = m.sqrt(L2)
    c.assume(L >= 1.0001 * sp)
    c.assume(L <= 3.999 * sp)
    first, last = ends(c)
    n = next(
        (k + 1 for k in (1, 2) if bool(L < (k + 1) * sp)), 4
    )
    new = add_reinforcement_line(
        g, a, b, 20, mat, s=sp, first=first, last=last, group_label='row'
    )
    off = (L - (n - 1) * sp) / 2
    ux, uy = (b[0] - a[0]) / L, (b[1] - a[1]) / L
    want = drop(
        [(a[0] + ux * (off + k * sp), a[1] + uy * (off + k * sp))
         for k in range(n)], first, last,
    )
    if not want:
        return
    # at a spacing that divides the length a bar may be lost to rounding
    for k in (1, 2, 3):
        c.assume(abs(L - k * sp) >= 1e-3)
    verify_bars(c, new, s, p, want, mat, 'row', 20)


@harness('C19', 'line with number and spacing', bounds='n = 2..4; symbolic '
         'end points', stubs=['shapely'], outside=OUT)
def line_ns(c):
    from structuralcodes.geometry import add_reinforcement_line

    g, s, p, mat = base(c)
    a, b, L2 = segment(c)
    sp = c.real('s', 20, 500)
    L = m.sqrt(L2)
    n = c.choice('n', [1, 2, 4])

    def f():
        return add_reinforcement_line(
            g, a, b, 20, mat, n=n, s=sp, group_label='row'
        )

    c.assume(abs(L - (n - 1) * sp) >= 1e-3)
    if bool((n - 1) * sp > L):
        c.check('no room', c.raises(f))
        return
    new = f()
    off = (L - (n - 1) * sp) / 2
    ux, uy = (b[0] - a[0]) / L, (b[1] - a[1]) / L
    want = [
        (a[0] + ux * (off + k * sp), a[1] + uy * (off + k * sp))
        for k in range(n)
    ]
    verify_bars(c, new, s, p, want, mat, 'row', 20)


@harness('C19', 'line and circle need n or s', bounds='none',
         stubs=['shapely'], outside=OUT)
def no_ns(c):
    from structuralcodes.geometry import (
        add_reinforcement_circle, add_reinforcement_line,
    )

    g, _s, _p, mat = base(c)
    c.check('line', c.raises(
        add_reinforcement_line, g, (0, 0), (100, 0), 16, mat))
    c.check('circle', c.raises(
        add_reinforcement_circle, g, (0, 0), 100, 16, mat))
    a0 = c.real('a0', -3, 3)
    d = c.real('d', -1, 9)
    c.assume(m.OR(d <= 0, d >= 6.2832))
    c.check('stop before start or more than one turn', c.raises(
        add_reinforcement_circle, g, (0, 0), 100, 16, mat, n=3,
        start_angle=a0, stop_angle=a0 + d))


@harness('C19', 'arc of n bars', bounds='n = 1..5; symbolic centre, radius '
         'and angles', stubs=['shapely'], outside=OUT)
def arc_n(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, s, p, mat = base(c)
    cx, cy = c.real('cx', -300, 300), c.real('cy', -300, 300)
    r = c.real('r', 50, 500)
    a0 = c.real('a0', -3.2, 6.3)
    da = c.real('da', 0.1, 6.2)
    n = c.choice('n', [1, 2, 3, 5])
    first, last = ends(c)
    if n == 1:
        c.assume(first and last)
    new = add_reinforcement_circle(
        g, (cx, cy), r, 20, mat, n=n, first=first, last=last,
        start_angle=a0, stop_angle=a0 + da, group_label='ring',
    )
    want = drop(
        [(cx + r * m.cos(a0 + da * k / max(n - 1, 1)),
          cy + r * m.sin(a0 + da * k / max(n - 1, 1))) for k in range(n)],
        first, last,
    )
    if not want:
        return
    verify_bars(c, new, s, p, want, mat, 'ring', 20)


@harness('C19', 'whole circle of n bars', bounds='n = 1..6; symbolic centre '
         'and radius; default angles', stubs=['shapely'], outside=OUT)
def circle_n(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, s, p, mat = base(c)
    cx, cy = c.real('cx', -300, 300), c.real('cy', -300, 300)
    r = c.real('r', 50, 500)
    n = c.choice('n', [1, 2, 3, 4, 6])
    new = add_reinforcement_circle(
        g, (cx, cy), r, 20, mat, n=n, group_label='ring'
    )
    want = [
        (cx + r * math.cos(2 * PI * k / n), cy + r * math.sin(2 * PI * k / n))
        for k in range(n)
    ]
    verify_bars(c, new, s, p, want, mat, 'ring', 20)


@harness('C19', 'whole circle with number and spacing', bounds='n = 1..5; '
         'symbolic centre, radius, start angle and spacing',
         stubs=['shapely'], outside=OUT)
def circle_ns(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, s, p, mat = base(c)
    cx, cy = c.real('cx', -300, 300), c.real('cy', -300, 300)
    r = c.real('r', 50, 500)
    sp = c.real('s', 20, 500)
    n = c.choice('n', [1, 2, 3, 5])
    L = 2 * PI * r
    # the spacing fits between all neighbours, the last and the first too
    c.assume(n * sp <= L - 1e-3)
    new = add_reinforcement_circle(
        g, (cx, cy), r, 20, mat, n=n, s=sp, group_label='ring'
    )
    a0 = (2 * PI - n * sp / r) / 2
    w = [a0 + k * sp / r for k in range(n)]
    want = [(cx + r * m.cos(a), cy + r * m.sin(a)) for a in w]
    verify_bars(c, new, s, p, want, mat, 'ring', 20)


@harness('C19', 'ends of a whole circle', bounds='n = 3, 4; first and last '
         'bar left out or not; symbolic radius', stubs=['shapely'],
         outside=OUT)
def circle_ends(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, s, p, mat = base(c)
    r = c.real('r', 50, 500)
    n = c.choice('n', [3, 4])
    first, last = ends(c)
    new = add_reinforcement_circle(
        g, (0, 0), r, 20, mat, n=n, first=first, last=last,
        group_label='ring',
    )
    want = drop([
        (r * math.cos(2 * PI * k / n), r * math.sin(2 * PI * k / n))
        for k in range(n)
    ], first, last)
    verify_bars(c, new, s, p, want, mat, 'ring', 20)


@harness('C19', 'arc with number and spacing', bounds='n = 2..4; symbolic '
         'centre, radius, angles and spacing', stubs=['shapely'],
         outside=OUT)
def arc_ns(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, s, p, mat = base(c)
    r = c.real('r', 50, 500)
    a0 = c.real('a0', -3.2, 6.3)
    da = c.real('da', 0.1, 6.2)
    sp = c.real('s', 20, 500)
    n = c.choice('n', [2, 3, 4])
    c.assume(abs(r * da - (n - 1) * sp) >= 1e-3)

    def f():
        return add_reinforcement_circle(
            g, (10, 20), r, 20, mat, n=n, s=sp, start_angle=a0,
            stop_angle=a0 + da, group_label='ring',
        )

    if bool((n - 1) * sp > r * da):
        c.check('no room', c.raises(f))
        return
    new = f()
    w = [
        a0 + (da - (n - 1) * sp / r) / 2 + k * sp / r for k in range(n)
    ]
    want = [(10 + r * m.cos(a), 20 + r * m.sin(a)) for a in w]
    verify_bars(c, new, s, p, want, mat, 'ring', 20)


@harness('C19', 'arc with spacing', bounds='arc length over spacing between '
         '1 and 3.999; symbolic radius, angles and spacing',
         stubs=['shapely'], outside=OUT)
def arc_s(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, s, p, mat = base(c)
    r = c.real('r', 50, 500)
    a0 = c.real('a0', -3.2, 6.3)
    da = c.real('da', 0.1, 6.2)
    sp = c.real('s', 20, 500)
    L = r * da
    c.assume(L >= 1.0001 * sp)
    c.assume(L <= 3.999 * sp)
    for k in (1, 2, 3):
        c.assume(abs(L - k * sp) >= 1e-3)
    n = next((k + 1 for k in (1, 2) if bool(L < (k + 1) * sp)), 4)
    new = add_reinforcement_circle(
        g, (10, 20), r, 20, mat, s=sp, start_angle=a0, stop_angle=a0 + da,
        group_label='ring',
    )
    w = [a0 + (da - (n - 1) * sp / r) / 2 + k * sp / r for k in range(n)]
    want = [(10 + r * m.cos(a), 20 + r * m.sin(a)) for a in w]
    verify_bars(c, new, s, p, want, mat, 'ring', 20)


@harness('C19', 'whole circle with spacing', bounds='circumference over '
         'spacing between 2 and 3.999; symbolic radius and spacing',
         stubs=['shapely'], outside=OUT)
def circle_s(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, _s, p, mat = base(c)
    r = c.real('r', 50, 500)
    sp = c.real('s', 50, 1500)
    L = 2 * PI * r
    c.assume(L >= 2 * sp)
    c.assume(L <= 3.999 * sp)
    for k in (2, 3):
        c.assume(abs(L - k * sp) >= 1e-3)
    new = add_reinforcement_circle(g, (0, 0), r, 20, mat, s=sp)
    bars = list(new.point_geometries)[len(p):]
    n = 2 if bool(L < 3 * sp) else 3
    c.check('number of bars', len(bars) in (n, n + 1))
    for k, b in enumerate(bars):
        c.eq(f'bar {k} on the circle', b.x * b.x + b.y * b.y, r * r)
        c.eq(f'bar {k} diameter', b.diameter, 20)
        # spaced by s, centred on the point opposite to the start
        a = PI + (k - (len(bars) - 1) / 2) * sp / r
        c.eq(f'bar {k} x', b.x, r * m.cos(a), atol=1e-6)
        c.eq(f'bar {k} y', b.y, r * m.sin(a), atol=1e-6)
    c.check('last and first bar not closer than the spacing',
            len(bars) == n)


@harness('C19', 'spacing that divides the whole circle', bounds='circumference '
         'over spacing 1, 2, 3, 5; symbolic radius, centre and start angle, '
         'first and last bar left out or not', stubs=['shapely'], outside=OUT)
def circle_s_divides(c):
    from structuralcodes.geometry import add_reinforcement_circle

    g, s, p, mat = base(c)
    cx, cy = c.real('cx', -300, 300), c.real('cy', -300, 300)
    r = c.real('r', 50, 500)
    k = c.choice('bars', [1, 2, 3, 5])
    first, last = ends(c)
    new = add_reinforcement_circle(
        g, (cx, cy), r, 20, mat, s=r * (2 * math.pi) / k, first=first,
        last=last, group_label='ring',
    )
    bars = list(getattr(new, 'point_geometries', p))[len(p):]
    want = max(k - (not first) - (not last), 0)
    if k == 1:
        want = 1 if first and last else 0
    c.check('one bar for each spacing', len(bars) == want)
    for i, b in enumerate(bars):
        c.eq(f'bar {i} on the circle', (b.x - cx) * (b.x - cx)
             + (b.y - cy) * (b.y - cy), r * r, rtol=1e-9, atol=1e-6)
    for i, (a, b) in enumerate(zip(bars, bars[1:])):
        c.eq(f'chord {i}', (a.x - b.x) * (a.x - b.x)
             + (a.y - b.y) * (a.y - b.y),
             4 * r * r * math.sin(math.pi / k) ** 2, rtol=1e-9, atol=1e-6)


@harness('C19', 'rectangle', bounds='symbolic size and origin',
         stubs=['shapely'], outside=OUT)
def rectangle(c):
    from structuralcodes.geometry import RectangularGeometry

    _s, con = mats()
    w, h = c.real('w', -100, 500), c.real('h', -100, 500)
    x, y = c.real('x', -500, 500), c.real('y', -500, 500)
    how = c.choice('origin', ['given', 'default', 'wrong'])
    kw = {}
    if how == 'given':
        kw = {'origin': (x, y)}
    elif how == 'wrong':
        kw = {'origin': (x, y, x)}
    else:
        x = y = 0

    def f():
        return RectangularGeometry(w, h, con, name='r', group_label='g', **kw)

    if how == 'wrong' or bool(w <= 0) or bool(h <= 0):
        c.check('refused', c.raises(f))
        return
    g = f()
    c.eq('width', g.width, w)
    c.eq('height', g.height, h)
    c.eq('area', g.area, w * h)
    mn_x, mx_x, mn_y, mx_y = g.calculate_extents()
    c.eq('min x', mn_x, x - w / 2, atol=1e-6)
    c.eq('max x', mx_x, x + w / 2, atol=1e-6)
    c.eq('min y', mn_y, y - h / 2, atol=1e-6)
    c.eq('max y', mx_y, y + h / 2, atol=1e-6)
    c.eq('centroid x', g.centroid[0], x, atol=1e-6)
    c.eq('centroid y', g.centroid[1], y, atol=1e-6)
    c.check('material', g.material is con)
    c.check('name', g.name == 'r' and g.group_label == 'g')
    want = moments([[
        (x - w / 2, y - h / 2), (x + w / 2, y - h / 2),
        (x + w / 2, y + h / 2), (x - w / 2, y + h / 2),
    ]])
    got = moments(rings(g.polygon))
    for k, (a, b) in enumerate(zip(got, want)):
        c.eq(f'moment {k}', a, b, atol=1e-6)


@harness('C19', 'circle', bounds='symbolic diameter and origin; 8 to 22 '
         'requested points', stubs=['shapely'], outside=OUT)
def circle(c):
    from structuralcodes.geometry import CircularGeometry

    _s, con = mats()
    d = c.real('d', -100, 500)
    x, y = c.real('x', -500, 500), c.real('y', -500, 500)
    how = c.choice('origin', ['given', 'default', 'wrong'])
    np_ = c.choice('n_points', [None, 8, 9, 11, 22])
    kw = {} if np_ is None else {'n_points': np_}
    if how == 'given':
        kw['origin'] = (x, y)
    elif how == 'wrong':
        kw['origin'] = (x,)
    else:
        x = y = 0

    def f():
        return CircularGeometry(d, con, name='o', group_label='g', **kw)

    if how == 'wrong' or bool(d <= 0):
        c.check('refused', c.raises(f))
        return
    g = f()
    n = 4 * round((np_ or 20) / 4)
    c.eq('diameter', g.diameter, d)
    c.eq('radius', g.radius, d / 2)
    pts = ring(g.polygon.exterior)
    c.check('number of vertices', len(pts) == n)
    for k, (px, py) in enumerate(pts):
        c.eq(f'vertex {k} on the circle',
             (px - x) * (px - x) + (py - y) * (py - y), d * d / 4,
             atol=1e-6)
    c.eq('area', g.area, n / 2 * math.sin(2 * PI / n) * d * d / 4)
    mn_x, mx_x, mn_y, mx_y = g.calculate_extents()
    c.eq('min x', mn_x, x - d / 2, atol=1e-6)
    c.eq('max x', mx_x, x + d / 2, atol=1e-6)
    c.eq('min y', mn_y, y - d / 2, atol=1e-6)
    c.eq('max y', mx_y, y + d / 2, atol=1e-6)
    c.eq('centroid x', g.centroid[0], x, atol=1e-6)
    c.eq('centroid y', g.centroid[1], y, atol=1e-6)
    c.check('material', g.material is con)
    c.check('name', g.name == 'o' and g.group_label == 'g')


def quad(x0, y0, w, h):
    return [
        (x0, y0), (x0 + 2 * w, y0 + 10), (x0 + w, y0 + 2 * h),
        (x0 - w, y0 + h),
    ]


@harness('C19', 'compound', bounds='symbolic quadrilaterals; lists, nested '
         'compounds, multipolygons with one or several materials',
         stubs=['shapely'], outside=OUT)
def compound(c):
    from structuralcodes.geometry import (
        CompoundGeometry, PointGeometry, SurfaceGeometry,
    )

    G = geo.lib(c)
    s, con = mats()
    x0, y0 = c.real('x0', -1000, 1000), c.real('y0', -1000, 1000)
    w, h = c.real('w', 50, 500), c.real('h', 50, 500)
    A = G.Polygon(quad(x0, y0, w, h))
    # the second one is beyond the first
    B = G.Polygon(quad(x0 + 4 * w, y0, w, h))
    how = c.choice(
        'how', ['list', 'sum', 'nested', 'multi', 'multi list',
                'multi wrong'],
    )
    rc = c.choice('concrete', [False, True])
    pts = []
    mats_ = (con, s)
    a = SurfaceGeometry(A, con, name='a')
    b = SurfaceGeometry(B, s, concrete=rc, name='b')
    p = PointGeometry((x0, y0), 16, s, name='p')
    if how == 'list':
        g = CompoundGeometry([a, p, b])
        pts = [p]
    elif how == 'sum':
        g = a + p + b
        pts = [p]
    elif how == 'nested':
        g = CompoundGeometry([p, a + p, CompoundGeometry([b, p])])
        pts = [p, p, p]
    elif how == 'multi':
        g = CompoundGeometry(G.MultiPolygon([A, B]), con)
        mats_, rc = (con, con), False
    elif how == 'multi list':
        g = CompoundGeometry(G.MultiPolygon([A, B]), [con, s])
        rc = False
    else:
        c.check('refused', c.raises(
            CompoundGeometry, G.MultiPolygon([A, B]), [con]))
        return
    c.check('number of surfaces', len(g.geometries) == 2)
    for k, (gg, poly, mat) in enumerate(zip(g.geometries, (A, B), mats_)):
        eq_pts(c, f'surface {k}', ring(gg.polygon.exterior),
               ring(poly.exterior))
        c.check(f'surface {k} material', gg.material is mat)
        if how in ('list', 'sum', 'nested'):
            c.check(f'surface {k} name', gg.name == 'ab'[k])
    c.check('bars', [x.name for x in g.point_geometries] == [
        x.name for x in pts
    ])
    c.check('reinforced concrete', g.reinforced_concrete == rc)
    ar = moments([quad(x0, y0, w, h)])[0]
    c.eq('area', g.area, 2 * ar)
    mn_x, mx_x, mn_y, mx_y = g.calculate_extents()
    c.eq('min x', mn_x, x0 - w, atol=1e-6)
    c.eq('max x', mx_x, x0 + 6 * w, atol=1e-6)
    c.eq('min y', mn_y, y0, atol=1e-6)
    c.eq('max y', mx_y, y0 + 2 * h, atol=1e-6)


@harness('C19', 'subtraction', bounds='symbolic rectangle minus a symbolic '
         'rectangle inside it or across its top edge, a compound of two, '
         'and a bar', stubs=['shapely'], outside=OUT)
def subtraction(c):
    from structuralcodes.geometry import (
        CompoundGeometry, PointGeometry, RectangularGeometry,
        SurfaceGeometry,
    )

    s, con = mats()
    x, y = c.real('x', -500, 500), c.real('y', -500, 500)
    w, h = c.real('w', 300, 600), c.real('h', 300, 600)
    a, b = c.real('a', 20, 100), c.real('b', 20, 100)
    left = c.choice('left', ['surface', 'compound'])
    right = c.choice('right', ['inside', 'across', 'two', 'bar'])
    body = RectangularGeometry(
        w, h, con, concrete=True, origin=(x, y), name='n', group_label='g'
    )
    bar = PointGeometry((x + 5, y), 16, s, name='bar')
    G = body if left == 'surface' else CompoundGeometry([body, bar])
    r1 = RectangularGeometry(a, b, s, origin=(x - 70, y - 10))
    r2 = RectangularGeometry(a, 2 * b, s, origin=(x + 80, y + h / 2))
    cut = {
        'inside': r1, 'across': r2, 'two': r1 + r2,
        'bar': PointGeometry((x, y), 20, s),
    }[right]
    new = G - cut
    if left == 'compound':
        c.check('bars kept', [p.name for p in new.point_geometries] == [
            'bar'])
        c.check('one surface', len(new.geometries) == 1)
        sf = new.geometries[0]
    else:
        c.check('a surface', isinstance(new, SurfaceGeometry))
        sf = new
    c.check('material', sf.material is con)
    c.check('concrete flag', sf.concrete is True)
    c.check('name', sf.name == 'n' and sf.group_label == 'g')

    def box(cx, cy, ww, hh):
        return [
            (cx - ww / 2, cy - hh / 2), (cx + ww / 2, cy - hh / 2),
            (cx + ww / 2, cy + hh / 2), (cx - ww / 2, cy + hh / 2),
        ]

    want = moments([box(x, y, w, h)])
    sub = []
    if right in ('inside', 'two'):
        sub.append(box(x - 70, y - 10, a, b))
    if right in ('across', 'two'):
        sub.append(box(x + 80, y + h / 2 - b / 2, a, b))
    for q in sub:
        want = [u - v for u, v in zip(want, moments([q]))]
    got = moments(rings(sf.polygon))
    for k, (u, v) in enumerate(zip(got, want)):
        c.eq(f'moment {k}', u, v, atol=1e-3)
    c.eq('area', sf.area, want[0])
    # operands unchanged
    eq_pts(c, 'left operand', ring(body.polygon.exterior), box(x, y, w, h))


@harness('C19', 'from_geometry', bounds='surface, point and compound with '
         'symbolic position; given and default material',
         stubs=['shapely'], outside=OUT)
def from_geometry(c):
    from structuralcodes.core.base import Material  # noqa: F401
    from structuralcodes.geometry import (
        CompoundGeometry, PointGeometry, RectangularGeometry,
        SurfaceGeometry,
    )

    s, con = mats()
    x, y = c.real('x', -500, 500), c.real('y', -500, 500)
    w, h = c.real('w', 300, 600), c.real('h', 300, 600)
    d = c.real('d', 6, 40)
    how = c.choice('material', ['given', 'default', 'wrong'])
    what = c.choice('what', ['surface', 'point', 'compound', 'mismatch'])
    r = RectangularGeometry(w, h, con, origin=(x, y), name='n',
                            group_label='g')
    p = PointGeometry((x, y), d, s, name='q', group_label='k')
    cmp_ = CompoundGeometry([r, p])
    cls, obj = {
        'surface': (SurfaceGeometry, r), 'point': (PointGeometry, p),
        'compound': (CompoundGeometry, cmp_),
        'mismatch': (SurfaceGeometry, p),
    }[what]
    if what == 'mismatch':
        c.check('wrong kind', c.raises(
            SurfaceGeometry.from_geometry, p, exc=TypeError))
        c.check('wrong kind', c.raises(
            PointGeometry.from_geometry, r, exc=TypeError))
        c.check('wrong kind', c.raises(
            CompoundGeometry.from_geometry, r, exc=TypeError))
        return
    if how == 'wrong':
        c.check('wrong material', c.raises(
            cls.from_geometry, obj, 'steel', exc=TypeError))
        return
    new = cls.from_geometry(obj, s) if how == 'given' else \
        cls.from_geometry(obj)
    surfs = {'surface': [new], 'point': []}.get(what)
    pts = {'surface': [], 'point': [new]}.get(what)
    if surfs is None:
        surfs, pts = list(new.geometries), list(new.point_geometries)
    c.check('numbers', len(surfs) == (what != 'point') and
            len(pts) == (what != 'surface'))
    for n in surfs:
        c.check('name', n.name == 'n' and n.group_label == 'g')
        eq_pts(c, 'surface', ring(n.polygon.exterior),
               ring(r.polygon.exterior))
    for n in pts:
        c.check('name', n.name == 'q' and n.group_label == 'k')
        c.eq('x', n.x, x, atol=1e-9)
        c.eq('y', n.y, y, atol=1e-9)
        c.eq('diameter', n.diameter, d)
        c.eq('area', n.area, PI / 4 * d * d)
    for n, o in [(q, con) for q in surfs] + [(q, s) for q in pts]:
        if how == 'given':
            c.check('material', n.material is s)
        else:
            c.eq('modulus', n.material.constitutive_law.get_tangent(0.0),
                 o.E)
            c.eq('density', n.material.density, o.density)
    c.check('original material', r.material is con and p.material is s)
