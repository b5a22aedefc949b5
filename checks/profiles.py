"""C21: steel profiles."""

import math
from fractions import Fraction as F

from symx.harness import harness

from ._sec import ring, signed_moments

OUT = (
    'shapely (stand-in symx/geo.py, whose rounded corners are taken from the '
    'real library, compared with it at the witness of every path); snapping '
    'to the precision grid; floating point rounding; the numbers of the '
    'tables themselves'
)
NAMES = ('area', 'Sx', 'Sy', 'Ixx', 'Iyy', 'Ixy')


def spandrel(e1, e2, n=720):
    """Moments, about the corner, of the region between the tangents along
    e1 and e2 (pointing away from the corner) and the unit circle that
    touches both, and the moments of the absolute values.
    """
    e1 = [x / math.hypot(*e1) for x in e1]
    e2 = [x / math.hypot(*e2) for x in e2]
    a = math.acos(e1[0] * e2[0] + e1[1] * e2[1])
    t = 1 / math.tan(a / 2)
    bis = [e1[0] + e2[0], e1[1] + e2[1]]
    k = (1 / math.sin(a / 2)) / math.hypot(*bis)
    c = (bis[0] * k, bis[1] * k)
    f0 = math.atan2(t * e1[1] - c[1], t * e1[0] - c[0])
    f1 = math.atan2(t * e2[1] - c[1], t * e2[0] - c[0])
    d = (f1 - f0 + math.pi) % (2 * math.pi) - math.pi
    p = [(0.0, 0.0)] + [
        (c[0] + math.cos(f0 + d * i / n), c[1] + math.sin(f0 + d * i / n))
        for i in range(n + 1)
    ]
    m = signed_moments(p)
    s = 1 if m[0] > 0 else -1
    return [F(repr(s * x)) for x in m]


def corner(x, y, e1, e2, r, sign):
    """Moments about the origin of the spandrel at (x, y), and a bound of
    the absolute values of the contributions.
    """
    m = spandrel(e1, e2)
    a = m[0] * r**2
    sx, sy = m[1] * r**3, m[2] * r**3
    ixx, iyy, ixy = (v * r**4 for v in m[3:])
    q = [
        a, sx + x * a, sy + y * a,
        ixx + 2 * x * sx + x * x * a,
        iyy + 2 * y * sy + y * y * a,
        ixy + x * sy + y * sx + x * y * a,
    ]
    return [sign * v for v in q]


def outline(kind, d):
    """Sharp outline from its lower left corner, and its rounded corners."""
    h, b = d['h'], d['b']
    U, D, L, R = (0, 1), (0, -1), (-1, 0), (1, 0)
    if kind in ('I', 'TI'):
        w = d['tw'] / 2
        m = b / 2
        if kind == 'I':
            s, ti, tw_ = 0, d['tf'], d['tf']
            r1, r2 = d['r'], None
        else:
            s = F('0.14')
            ti = d['tf'] - s * (b / 4)
            tw_ = d['tf'] + s * (b / 4 - w)
            r1, r2 = d['r1'], d['r2']
        p = [
            (0, 0), (b, 0), (b, ti), (m + w, tw_), (m + w, h - tw_),
            (b, h - ti), (b, h), (0, h), (0, h - ti), (m - w, h - tw_),
            (m - w, tw_), (0, ti),
        ]
        s = float(s)
        cs = []
        for sx in (1, -1):
            for sy in (1, -1):
                y = tw_ if sy > 0 else h - tw_
                cs.append((
                    m + sx * w, y, (0, sy), (sx, -sy * s), r1, 1
                ))
                if r2 is not None:
                    y = ti if sy > 0 else h - ti
                    cs.append((
                        b if sx > 0 else 0, y, (0, -sy), (-sx, sy * s), r2,
                        -1,
                    ))
    elif kind in ('PU', 'TU8', 'TU5', 'U8'):
        tw, tf = d['tw'], d['tf']
        if kind == 'PU':
            s, u, r1, r2 = 0, 0, d['r'], None
        else:
            s = F('0.05') if kind == 'TU5' else F('0.08')
            u = (b - tw) / 2 if kind == 'TU5' else b / 2
            r1, r2 = d['r1'], d['r2']
        ti = tf - s * u
        tr = tf + s * (b - u - tw)
        p = [
            (0, 0), (b, 0), (b, ti), (tw, tr), (tw, h - tr), (b, h - ti),
            (b, h), (0, h),
        ]
        s = float(s)
        cs = []
        for sy in (1, -1):
            cs.append((
                tw, tr if sy > 0 else h - tr, (0, sy), (1, -sy * s), r1, 1
            ))
            if r2 is not None:
                cs.append((
                    b, ti if sy > 0 else h - ti, (0, -sy), (-1, sy * s), r2,
                    -1,
                ))
    else:
        t, r1, r2 = d['t'], d['r1'], d['r2']
        p = [(0, 0), (b, 0), (b, t), (t, t), (t, h), (0, h)]
        cs = [
            (t, t, U, R, r1, 1), (b, t, D, L, r2, -1), (t, h, L, D, r2, -1),
        ]
    return p, cs


def want(kind, d):
    """Moments about the lower left corner, with the room for the polygons
    that stand for the arcs: 3 % of the rounded parts.
    """
    p, cs = outline(kind, d)
    t = signed_moments(p)
    tol = [0] * 6
    for c in cs:
        q = corner(*c)
        t = [a + v for a, v in zip(t, q)]
        tol = [a + v * c[-1] for a, v in zip(tol, q)]
    return t, [F('0.03') * v for v in tol]


FAMILY = {
    'HE': 'I', 'HD': 'I', 'HP': 'I', 'IPE': 'I', 'UB': 'I', 'UBP': 'I',
    'UC': 'I', 'W': 'I', 'IPN': 'TI', 'UPE': 'PU', 'UPN8': 'TU8',
    'UPN5': 'TU5', 'U': 'U8', 'L': 'L', 'LI': 'L',
}


def family(c, f):
    import structuralcodes.geometry.profiles as P

    return getattr(P, f.rstrip('58'))


# base dimensions; the symbolic ones vary around
BASE = {
    'I': dict(h=300, b=200, tw=8, tf=14, r=18),
    'TI': dict(h=300, b=125, tw=10.8, tf=16.2, r1=10.8, r2=6.5),
    'PU': dict(h=200, b=80, tw=6, tf=11, r=13),
    'TU8': dict(h=200, b=75, tw=8.5, tf=11.5, r1=11.5, r2=6),
    'TU5': dict(h=350, b=100, tw=14, tf=16, r1=16, r2=8),
    'U8': dict(h=65, b=42, tw=5.5, tf=7.5, r1=7.5, r2=4),
    'L': dict(h=150, b=90, t=12, r1=12, r2=6),
}
RANGE = {
    'I': dict(h=(80, 1100), b=(60, 460), tw=(4, 40), tf=(5, 100),
              r=(5, 30)),
    'TI': dict(h=(80, 600), b=(100, 200), tw=(4, 20), tf=(12, 30),
               r1=(4, 20), r2=(3, 8)),
    'PU': dict(h=(80, 400), b=(45, 120), tw=(4, 14), tf=(7, 18),
               r=(8, 18)),
    'TU8': dict(h=(80, 300), b=(60, 100), tw=(6, 12), tf=(9, 16),
                r1=(6, 16), r2=(3, 6)),
    'TU5': dict(h=(301, 400), b=(90, 110), tw=(12, 15), tf=(15, 18),
                r1=(15, 18), r2=(7, 9)),
    'U8': dict(h=(50, 80), b=(38, 45), tw=(4, 7), tf=(7, 9), r1=(4, 8),
               r2=(2, 4)),
    'L': dict(h=(60, 250), b=(60, 250), t=(9, 25), r1=(8, 18), r2=(3, 9)),
}


def dims(c, kind, sym):
    # the real library joins the sides of tapered sections at equal end
    # points, which needs witnesses with few digits
    c.digits = 1
    if kind == 'I' and 'h' in sym:
        # the clear parts of web and flange are free
        tw, tf = c.real('tw', 4, 40), c.real('tf', 5, 100)
        r = c.real('r', 5, 30)
        h = c.real('clear web', 2, 900) + 2 * tf + 2 * r
        b = c.real('clear flange', 2, 400) + tw + 2 * r
        return dict(h=h, b=b, tw=tw, tf=tf, r=r)
    d = {}
    for n, v in BASE[kind].items():
        lo, hi = RANGE[kind][n]
        d[n] = c.real(n, lo, hi) if n in sym else v
    return d


def make(c, f, d):
    K = family(c, f)
    K.parameters = {'X': dict(d)}
    return K('X')


def outline_checks(c, kind, d, p):
    g = p.polygon
    rr = ring(g.exterior)
    c.check('outline without holes', len(g.interiors) == 0)
    x0, y0, x1, y1 = g.bounds
    b, h = d['b'], d['h']
    c.eq('width of the outline', x1 - x0, b)
    c.eq('height of the outline', y1 - y0, h)
    rel = [(x - x0, y - y0) for x, y in rr]
    got = signed_moments(rel)
    w, tol = want(kind, d)
    for n, a, e, t in zip(NAMES, got, w, tol):
        c.le(f'outline {n}, not more than', a, e + t)
        c.le(f'outline {n}, not less than', e - t, a)
    return rr


ALL = ('A', 'Iy', 'Iz', 'Iyz', 'Wely', 'Welz', 'iy', 'iz')


def values(p, names=ALL):
    return {n: getattr(p, n) for n in names}


def property_checks(c, p, rr, L, what=''):
    """L: size of the profile, for the tolerances."""
    t = signed_moments(rr)
    eps = F(1, 10**7)
    c.eq(what + 'A', p.A, t[0])
    c.eq(what + 'centroid y', t[1], 0, atol=float(eps) * L**3)
    c.eq(what + 'centroid z', t[2], 0, atol=float(eps) * L**3)
    c.eq(what + 'Iy', p.Iy, t[4])
    c.eq(what + 'Iz', p.Iz, t[3])
    c.eq(what + 'Iyz', p.Iyz, t[5], atol=float(eps) * L**4)
    x0, y0, x1, y1 = p.polygon.bounds
    ym = y1 if bool(y1 >= -y0) else -y0
    xm = x1 if bool(x1 >= -x0) else -x0
    c.eq(what + 'Wely', p.Wely * ym, t[4])
    c.eq(what + 'Welz', p.Welz * xm, t[3])
    c.eq(what + 'iy', p.iy * p.iy * t[0], t[4])
    c.eq(what + 'iz', p.iz * p.iz * t[0], t[3])
    c.check(what + 'iy not negative', p.iy >= 0)
    c.check(what + 'iz not negative', p.iz >= 0)


SYM = {
    'I': [('h', 'b', 'tw', 'tf', 'r')],
    'TI': [('h', 'b'), ('tw', 'tf'), ('r1',), ('r2',)],
    'PU': [('h', 'b'), ('tw', 'tf'), ('r',)],
    'TU8': [('h',), ('b',), ('tw', 'tf'), ('r1',), ('r2',)],
    'TU5': [('h',), ('b',), ('tw', 'tf'), ('r1',), ('r2',)],
    'U8': [('h',), ('b',), ('tw', 'tf'), ('r1',), ('r2',)],
    'L': [('h', 'b'), ('t',), ('r1',), ('r2',)],
}


@harness(
    'C21', 'outline',
    params=[
        dict(f=f, sym=s) for f, k in FAMILY.items() for s in SYM[k]
    ],
    bounds={'dimensions': 'the named ones symbolic, see RANGE; the others '
            'those of a typical profile'},
    budget=120, outside=OUT,
)
def outline_(c, f, sym):
    kind = FAMILY[f]
    d = dims(c, kind, sym)
    p = make(c, f, d)
    rr = outline_checks(c, kind, d, p)
    property_checks(c, p, rr, 1000.0)
    for n, v in d.items():
        c.eq(f'attribute {n}', getattr(p, n), v)
    q = family(c, f).get_polygon('X')
    ga, gb = q.exterior, p.polygon.exterior
    for n, a, e in zip(
        NAMES, signed_moments(ring(ga)), signed_moments(ring(gb))
    ):
        c.eq(f'get_polygon {n}', a, e, atol=1e-3)
    for n, v in d.items():
        c.eq(f'table entry {n}', family(c, f).parameters['X'][n], v)
    c.check('listed', list(family(c, f).profiles()) == ['X'])
    K = family(c, f)
    c.check('refused', c.raises(lambda: K('Y')))
    c.check('refused', c.raises(lambda: K.get_polygon('Y')))


def half(kind, d, ax):
    """Sharp outline above the middle (ax 'y') or right of it (ax 'z')."""
    p, cs = outline(kind, d)
    h, b = d['h'], d['b']
    m = b / 2
    if kind in ('I', 'TI'):
        if ax == 'y':
            q = [(p[4][0], h / 2)] + p[4:10] + [(p[9][0], h / 2)]
        else:
            q = [(m, 0)] + p[1:7] + [(m, h)]
    else:
        assert ax == 'y'
        q = [(p[4][0], h / 2)] + p[4:] + [(0, h / 2)]
    return q, cs


def plastic(kind, d, ax):
    """Plastic modulus about the axis of symmetry, and the room."""
    q, cs = half(kind, d, ax)
    k = 2 if ax == 'y' else 1
    mid = d['h'] / 2 if ax == 'y' else d['b'] / 2
    t = signed_moments(q)
    w = 2 * (t[k] - mid * t[0])
    tol = 0
    for x, y, e1, e2, r, sign in cs:
        v = spandrel(e1, e2)
        at = y if ax == 'y' else x
        fm = (at - mid) * v[0] * r**2 + v[k] * r**3
        # the side of the corner, from the direction of its legs
        side = sign * (-e1[1] if ax == 'y' else e2[0])
        side = 1 if side > 0 else -1
        w = w + sign * side * fm
        tol = tol + side * fm
    return w, F('0.03') * tol


@harness(
    'C21', 'plastic, symmetric',
    params=[
        dict(f=f, sym=s) for f, k in FAMILY.items() for s in SYM[k]
        if k != 'L'
    ],
    bounds={'dimensions': 'the named ones symbolic, see RANGE'},
    budget=120, outside=OUT,
)
def plastic_(c, f, sym):
    kind = FAMILY[f]
    d = dims(c, kind, sym)
    p = make(c, f, d)
    w, tol = plastic(kind, d, 'y')
    v = p.Wply
    c.le('Wply, not more than', v, w + tol)
    c.le('Wply, not less than', w - tol, v)
    if kind in ('I', 'TI'):
        w, tol = plastic(kind, d, 'z')
        v = p.Wplz
        c.le('Wplz, not more than', v, w + tol)
        c.le('Wplz, not less than', w - tol, v)


def fine(kind, d):
    """Outline with finely divided arcs, in floats."""
    p, cs = outline(kind, d)
    out = []
    for x, y in p:
        for a, b, e1, e2, r, _s in cs:
            if abs(a - x) + abs(b - y) < 1e-9:
                e1 = [v / math.hypot(*e1) for v in e1]
                e2 = [v / math.hypot(*e2) for v in e2]
                al = math.acos(e1[0] * e2[0] + e1[1] * e2[1])
                t = r / math.tan(al / 2)
                # start with the leg towards the previous vertex
                px, py = out[-1] if out else p[-1]
                if e1[0] * (px - x) + e1[1] * (py - y) < (
                    e2[0] * (px - x) + e2[1] * (py - y)
                ):
                    e1, e2 = e2, e1
                k = (r / math.sin(al / 2)) / math.hypot(
                    e1[0] + e2[0], e1[1] + e2[1]
                )
                cx, cy = x + k * (e1[0] + e2[0]), y + k * (e1[1] + e2[1])
                f0 = math.atan2(y + t * e1[1] - cy, x + t * e1[0] - cx)
                f1 = math.atan2(y + t * e2[1] - cy, x + t * e2[0] - cx)
                dd = (f1 - f0 + math.pi) % (2 * math.pi) - math.pi
                out += [
                    (cx + r * math.cos(f0 + dd * i / 200),
                     cy + r * math.sin(f0 + dd * i / 200))
                    for i in range(201)
                ]
                break
        else:
            out.append((float(x), float(y)))
    return out


def above(p, k, v):
    """Moments of the part of the ring with coordinate k above v."""
    out = []
    n = len(p)
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        if a[k] >= v:
            out.append(a)
        if (a[k] >= v) != (b[k] >= v):
            t = (v - a[k]) / (b[k] - a[k])
            q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
            q[k] = v
            out.append(tuple(q))
    return signed_moments(out)


def plastic_num(kind, d, k):
    p = fine(kind, d)
    A = signed_moments(p)
    lo, hi = min(q[k] for q in p), max(q[k] for q in p)
    for _ in range(60):
        m = (lo + hi) / 2
        if above(p, k, m)[0] > A[0] / 2:
            lo = m
        else:
            hi = m
    up = above(p, k, lo)
    j = k + 1
    # first moment above minus first moment below, about the axis
    return (up[j] - lo * up[0]) - ((A[j] - up[j]) - lo * (A[0] - up[0]))


# other proportions: the plastic axis in another part of the profile
OTHER = {
    'L': [dict(h=100, b=100, t=10, r1=12, r2=6),
          dict(h=80, b=160, t=9, r1=11, r2=5.5)],
    'PU': [dict(h=100, b=120, tw=6, tf=9, r=10)],
    'I': [dict(h=120, b=400, tw=20, tf=16, r=12),
          dict(h=1000, b=80, tw=20, tf=10, r=15)],
}


def scaled(c, kind, b=None):
    s = c.real('scale', 0.5, 4)
    c.digits = 1
    b = b or BASE[kind]
    if kind == 'TU5':
        s = c.real('scale 5', 0.9, 1.5)
    elif kind == 'TU8':
        s = c.real('scale 8', 0.5, 1.5)
    elif kind == 'PU':
        s = c.real('scale U', 0.5, 1.2)
    return s, {n: F(str(v)) * s if c.symbolic else v * s
               for n, v in b.items()}


@harness(
    'C21', 'plastic, scaled',
    params=[dict(f=f) for f, k in FAMILY.items()
            if f not in ('HD', 'HP', 'UB', 'UBP', 'UC', 'W')] + [
        dict(f=f, other=i) for f in ('L', 'LI', 'UPE', 'HE')
        for i in range(len(OTHER[FAMILY[f]]))],
    bounds={'dimensions': 'typical profiles, and some of other '
            'proportions, scaled by a symbolic factor '
            'of 0.5 to 4 (0.9 to 1.5 for UPN above 300)'},
    budget=120, outside=OUT,
)
def plastic_scaled(c, f, other=None):
    kind = FAMILY[f]
    b = BASE[kind] if other is None else OTHER[kind][other]
    s, d = scaled(c, kind, b)
    p = make(c, f, d)
    fl = {n: float(v) for n, v in b.items()}
    for n, k in (('Wply', 1), ('Wplz', 0)):
        w = plastic_num(kind, fl, k)
        c.eq(n, getattr(p, n), F(repr(w)) * s**3, rtol=1e-3)


EVERY = ALL + ('Wply', 'Wplz', 'Icsi', 'Ieta', 'theta')


@harness(
    'C21', 'reading',
    params=[
        dict(f=f, first=n) for f in ('HE', 'IPN', 'UPE', 'UPN8', 'L')
        for n in ('Wply', 'Wplz', 'Welz', 'theta', 'iy', 'Iz')
    ],
    bounds={'dimensions': 'a typical profile, scaled',
            'first property read': 'six of them, then all in order'},
    budget=120, outside=OUT,
)
def reading(c, f, first):
    kind = FAMILY[f]
    s, d = scaled(c, kind)
    p = make(c, f, d)
    before = ring(p.polygon.exterior)
    bb = p.polygon.bounds
    v = {first: getattr(p, first)}
    for n in EVERY:
        v[n] = getattr(p, n)
        c.eq(f'{first} then {n}: read again', getattr(p, n), v[n],
             atol=1e-3)
    after = ring(p.polygon.exterior)
    for n, a, e in zip(
        NAMES, signed_moments(after), signed_moments(before)
    ):
        c.eq(f'outline {n} afterwards', a, e, atol=1e-3)
    for n, a, e in zip(
        ('left', 'bottom', 'right', 'top'), p.polygon.bounds, bb
    ):
        c.eq(f'{n} side afterwards', a, e, atol=1e-6)
    q = make(c, f, d)
    for n in reversed(EVERY):
        c.eq(f'{n} of a fresh profile', v[n], getattr(q, n), atol=1e-3)


@harness(
    'C21', 'principal axes',
    params=[dict(f=f) for f in FAMILY],
    bounds={'dimensions': 'a typical profile, scaled'},
    budget=120, outside=OUT,
)
def principal(c, f):
    from symx import m

    kind = FAMILY[f]
    s, d = scaled(c, kind)
    p = make(c, f, d)
    i1, i2, th = p.Icsi, p.Ieta, p.theta
    a = F(1, 1000) * 1000**4
    c.le('order', i2, i1)
    c.eq('sum', i1 + i2, p.Iy + p.Iz)
    c.eq('product', i1 * i2, p.Iy * p.Iz - p.Iyz**2)
    co, si = m.cos(th), m.sin(th)
    c.eq(
        'direction', p.Iy * co * co + p.Iz * si * si
        - 2 * p.Iyz * si * co, i1, atol=float(a) * 1e-9,
    )
