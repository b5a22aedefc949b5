"""Stand-in for shapely while the code under test runs symbolically.

Polygons are lists of rings whose vertices may be symbolic.  The operations
structuralcodes uses (affine maps, area, centroid, bounds, splitting by a
line, clipping by a convex polygon, hull, difference, union of pieces whose
interiors are disjoint) are carried out exactly over the reals; every
geometric predicate becomes a branch decision of the symbolic run.  Whatever
is not modelled raises Unsupported, which makes the path inconclusive.

Concrete replays use the real shapely, so the stand-in is validated at the
witness of every path.
"""

import math
import sys
import types

import numpy as np
import shapely
import shapely.affinity
import shapely.geometry
import shapely.geometry.polygon
import shapely.ops

from . import core as K
from .core import Unsupported
from .shim import ModShim, _item

R = shapely  # the real library


def num(v):
    v = _item(v)
    r = K.S(v)
    if r is None:
        raise TypeError(f'not a number: {v!r}')
    return r


def _pt(p):
    if isinstance(p, Point):
        return (p._x, p._y)
    if isinstance(p, R.Point):
        return (num(p.x), num(p.y))
    p = list(p)
    return (num(p[0]), num(p[1]))


def _lt(a, b):
    return bool(a < b)


def _same(p, q):
    return p[0].same(q[0]) and p[1].same(q[1])


def _cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def signed_area2(r):
    t = K.ZERO
    n = len(r)
    if n < 3:
        return t
    o = r[0]
    for i in range(1, n - 1):
        t = t + _cross(o, r[i], r[i + 1])
    return t


class Coords(list):
    """Coordinate sequence."""

    @property
    def xy(self):
        x = np.empty(len(self), dtype=object)
        y = np.empty(len(self), dtype=object)
        for i, (a, b) in enumerate(self):
            x[i], y[i] = a, b
        return x, y

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return Coords(r) if isinstance(i, slice) else r

    def __array__(self, dtype=None, copy=None):
        a = np.empty((len(self), 2), dtype=object)
        for i, (x, y) in enumerate(self):
            a[i, 0], a[i, 1] = x, y
        return a


class Meta(type):
    """isinstance also accepts the real shapely class."""

    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        rc = cls.__dict__.get('_rc')
        return rc is not None and isinstance(x, rc)


class Geom(metaclass=Meta):
    is_empty = False
    has_z = False
    is_valid = True
    is_simple = True

    def map(self, f, iso=None):
        raise Unsupported(f'map of {type(self).__name__}')

    def _repr_svg_(self):
        return '<svg/>'

    def svg(self, *a, **k):
        return '<svg/>'

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        rc = type(self).__dict__.get('_rc')
        if rc is not None and not hasattr(rc, k):
            raise AttributeError(k)
        r = self.__dict__.get('_asreal')
        if r is None:
            r = to_real(self)
        if r is None:
            raise Unsupported(f'shapely {type(self).__name__}.{k}')
        v = getattr(r, k)
        if callable(v):
            return _delegate(v)
        return from_real(v)

    # geometry type
    @property
    def geom_type(self):
        return type(self).__name__

    # binary operations
    def __sub__(self, o):
        return self.difference(o)

    def __or__(self, o):
        return unary_union([self, o])

    def union(self, o, **k):
        return unary_union([self, o])

    def __and__(self, o):
        return self.intersection(o)

    def translate(self, dx, dy):
        return self.map(lambda p: (p[0] + dx, p[1] + dy), 1)


def _delegate(f):
    def g(*a, **k):
        a = [_conc(x) for x in a]
        k = {q: _conc(v) for q, v in k.items()}
        return from_real(f(*a, **k))

    return g


def _conc(x):
    if isinstance(x, Geom) and type.__instancecheck__(Geom, x):
        r = to_real(x)
        if r is None:
            raise Unsupported('symbolic geometry passed to real shapely')
        return r
    if isinstance(x, K.SymReal):
        if x.is_const():
            return float(x.const())
        raise Unsupported('symbolic number passed to real shapely')
    if isinstance(x, (list, tuple)):
        return type(x)(_conc(v) for v in x)
    return x


class Point(Geom):
    _rc = R.Point

    def __init__(self, *a):
        if len(a) == 1:
            p = a[0]
            if isinstance(p, Coords):
                p = p[0]
            if isinstance(p, np.ndarray) and p.ndim == 2:
                p = p[0]
        else:
            p = a
        if len(list(p) if not isinstance(p, (Point, R.Point)) else 'xy') < 2:
            raise ValueError('Point needs two coordinates')
        self._x, self._y = _pt(p)

    x = property(lambda s: s._x)
    y = property(lambda s: s._y)
    area = property(lambda s: 0.0)
    length = property(lambda s: 0.0)

    @property
    def xy(self):
        return self.coords.xy

    @property
    def coords(self):
        return Coords([(self._x, self._y)])

    @property
    def bounds(self):
        return (self._x, self._y, self._x, self._y)

    @property
    def centroid(self):
        return self

    def map(self, f, iso=None):
        return Point(f((self._x, self._y)))

    def buffer(self, r, quad_segs=16, **k):
        if set(k) - {'resolution', 'quadsegs'}:
            raise Unsupported('buffer options')
        qs = k.get('resolution', k.get('quadsegs', quad_segs))
        return _Circle(self, num(r), int(qs))

    def within(self, g):
        raise Unsupported('within')

    def distance(self, o):
        x, y = _pt(o)
        return K.s_root((self._x - x) ** 2 + (self._y - y) ** 2, 2)

    def _real(self):
        p = _fl((self._x, self._y))
        return None if p is None else R.Point(p)


class LineString(Geom):
    _rc = R.LineString
    _closed = False

    def __init__(self, pts=None):
        if isinstance(pts, LineString) and type.__instancecheck__(
            LineString, pts
        ):
            pts = pts.coords
        if isinstance(pts, R.LineString):
            pts = list(pts.coords)
        self._p = [_pt(p) for p in pts]
        if len(self._p) < 2:
            raise ValueError('LineString needs two points')

    @property
    def coords(self):
        return Coords(self._p)

    @property
    def xy(self):
        return self.coords.xy

    @property
    def bounds(self):
        return _bounds(self._p)

    @property
    def length(self):
        t = K.ZERO
        for a, b in zip(self._p, self._p[1:]):
            t = t + K.s_root((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2, 2)
        return t

    @property
    def centroid(self):
        if len(self._p) != 2:
            raise Unsupported('centroid of a line string')
        a, b = self._p
        return Point((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)

    def map(self, f, iso=None):
        t = LineString if isinstance(self, _Offset) else type(self)
        return t([f(p) for p in self._p])

    def intersects(self, o):
        return line_intersects(self, o)

    def offset_curve(self, d, quad_segs=16, join_style='round',
                     mitre_limit=5.0):
        return _Offset(
            self, num(d), (int(quad_segs), join_style, mitre_limit)
        )

    def _real(self):
        p = [_fl(q) for q in self._p]
        return None if None in p else R.LineString(p)


class _Offset(LineString):
    """Offset curve of a line with one corner.

    The corner is taken from the real library on a copy scaled by the offset,
    with long legs; the legs have to be longer than the rounded part.
    """

    _rc = None

    geom_type = 'LineString'

    def __init__(self, base, d, opt):
        if isinstance(base, _Offset):
            self._base, self._ds = base._base, base._ds + [(d, opt)]
        else:
            self._base, self._ds = base, [(d, opt)]
        self._pp = None

    @property
    def _p(self):
        if self._pp is None:
            self._pp = self._make()
        return self._pp

    def _real(self):
        return LineString._real(LineString(self._p))

    def _make(self):
        p = self._base._p
        if len(p) != 3:
            raise Unsupported('offset of a line with more than one corner')
        r = self._ds[0][0]
        if bool(r <= 0):
            r = -r
            if not bool(r > 0):
                raise Unsupported('offset by zero')
        unit = []
        for d, _o in self._ds:
            q = d / r
            if not q.is_const():
                raise Unsupported('offsets that are not proportional')
            unit.append(float(q.const()))
        L = 1000.0
        legs = []
        for e in (p[0], p[2]):
            dx, dy = e[0] - p[1][0], e[1] - p[1][1]
            big, k = (dx, 0) if not bool(dx == 0) else (dy, 1)
            s = 1.0 if bool(big > 0) else -1.0
            q = (dx, dy)[1 - k] / big
            if not q.is_const():
                raise Unsupported('corner with symbolic direction')
            v = [0.0, 0.0]
            v[k], v[1 - k] = s, s * float(q.const())
            n = math.hypot(*v)
            legs.append((v[0] / n * L, v[1] / n * L))
        g = R.LineString([legs[0], (0.0, 0.0), legs[1]])
        for u, (_d, (qs, js, ml)) in zip(unit, self._ds):
            g = g.offset_curve(u, qs, js, ml)
        out = []
        far = 0.0
        for x, y in g.coords:
            for e, at in ((legs[0], p[0]), ((0.0, 0.0), p[1]),
                          (legs[1], p[2])):
                a, b = x - e[0], y - e[1]
                if math.hypot(a, b) < L / 2:
                    a = 0.0 if abs(a) < 1e-11 else a
                    b = 0.0 if abs(b) < 1e-11 else b
                    if at is p[1]:
                        far = max(far, math.hypot(a, b))
                    out.append((at[0] + r * a, at[1] + r * b))
                    break
            else:
                raise Unsupported('corner of the offset curve')
        for e in (p[0], p[2]):
            dx, dy = e[0] - p[1][0], e[1] - p[1][1]
            if not bool(dx * dx + dy * dy > (r * far) ** 2):
                raise Unsupported('leg shorter than the rounded corner')
        return out


def linemerge(lines, directed=False):
    """Join lines at equal end points."""
    if isinstance(lines, _Multi):
        lines = lines.geoms
    ls = [list(_lift(g)._p) for g in lines]
    if directed:
        raise Unsupported('directed line merge')
    ends = [e for q in ls for e in (q[0], q[-1])]
    for i, a in enumerate(ends):
        if sum(_same(a, b) for b in ends) > 2:
            raise Unsupported('merge of branching lines')
    cur = ls.pop(0)
    done = []
    while True:
        for k, q in enumerate(ls):
            for rv in (False, True):
                r = q[::-1] if rv else q
                if _same(cur[-1], r[0]):
                    cur = cur + r[1:]
                elif _same(cur[0], r[-1]):
                    cur = r[:-1] + cur
                else:
                    continue
                ls.pop(k)
                break
            else:
                continue
            break
        else:
            done.append(cur)
            if not ls:
                break
            cur = ls.pop(0)
    out = [LineString(q) for q in done]
    return out[0] if len(out) == 1 else MultiLineString(out)


def polygonize(lines, **k):
    """Polygon of one closed line; other lines give none."""
    if isinstance(lines, Geom) and type.__instancecheck__(Geom, lines):
        lines = [lines]
    lines = list(lines)
    rs = [to_real(g) for g in lines]
    if None not in rs:
        return from_real(R.polygonize(rs))
    if len(lines) != 1:
        raise Unsupported('polygonize of several lines')
    g = lines[0]
    gs = g.geoms if isinstance(g, _Multi) else [g]
    if len(gs) != 1:
        raise Unsupported('polygonize of an unconnected line')
    p = gs[0]._p
    if len(p) < 4 or not _same(p[0], p[-1]):
        return GeometryCollection([])
    return GeometryCollection([Polygon(p)])


def get_geometry(g, i, **k):
    if isinstance(g, R.Geometry):
        return from_real(R.get_geometry(g, i))
    gs = g.geoms if isinstance(g, _Multi) else [g]
    return gs[i] if -len(gs) <= i < len(gs) else None


class LinearRing(LineString):
    _rc = R.LinearRing

    def __new__(cls, pts=None, ccw=None):
        if (
            cls is LinearRing and isinstance(pts, (list, tuple))
            and len(pts) == 3 and isinstance(pts[2], _CentroidPt)
        ):
            cls = _CentroidRing
        return object.__new__(cls)

    def __init__(self, pts=None, ccw=None):
        if isinstance(pts, LineString):
            pts = list(pts.coords)
        p = [_pt(q) for q in pts]
        if len(p) > 1 and _same(p[0], p[-1]):
            p = p[:-1]
        self._r = p
        self._p = p + p[:1]
        self._ccw = ccw

    @property
    def is_ccw(self):
        if self._ccw is None:
            self._ccw = bool(signed_area2(self._r) > 0)
        return self._ccw

    @property
    def is_closed(self):
        return True

    is_ring = is_closed

    def map(self, f, iso=None):
        ccw = None
        if self._ccw is not None and iso is not None:
            ccw = self._ccw if iso > 0 else not self._ccw
        return LinearRing([f(p) for p in self._r], ccw)

    def _real(self):
        p = [_fl(q) for q in self._p]
        return None if None in p else R.LinearRing(p)


class _CentroidPt:
    """Coordinates of the centroid of a polygon, computed on demand."""

    def __init__(self, poly):
        self._poly = poly
        self._v = None

    def _get(self):
        if self._v is None:
            self._v = self._poly._centroid()
        return self._v

    def __iter__(self):
        return iter(self._get())

    def __getitem__(self, i):
        return self._get()[i]

    def __len__(self):
        return 2

    def __eq__(self, o):
        return tuple(self) == tuple(o)


class _Centroid(Point):
    _rc = None

    def __init__(self, poly):
        self._c = _CentroidPt(poly)

    geom_type = 'Point'
    _x = property(lambda s: s._c[0])
    _y = property(lambda s: s._c[1])

    @property
    def coords(self):
        return Coords([self._c])


class _CentroidRing(LinearRing):
    """Triangle of two points and the centroid of a polygon."""

    _rc = None

    def __init__(self, pts=None, ccw=None):
        self._q = list(pts)
        self._rr = None
        self._ccw = ccw

    @property
    def _r(self):
        if self._rr is None:
            self._rr = [_pt(q) for q in self._q]
        return self._rr

    @property
    def _p(self):
        return self._r + self._r[:1]

    @property
    def is_ccw(self):
        if self._ccw is None:
            a, b = _pt(self._q[0]), _pt(self._q[1])
            poly = self._q[2]._poly
            # the centroid lies in the hull of the vertices
            parts = getattr(poly, '_parts', None) or [poly]
            signs = set()
            for q in parts:
                for v in q._e._r:
                    d = _cross(a, b, v)
                    signs.add(
                        1 if bool(d > 0) else (-1 if bool(d < 0) else 0)
                    )
            signs.discard(0)
            if len(signs) == 1:
                self._ccw = signs == {1}
            else:
                self._ccw = bool(signed_area2(self._r) > 0)
        return self._ccw


def _fl(p):
    if all(v.is_const() for v in p):
        return tuple(float(v.const()) for v in p)
    return None


def _bounds(pts):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return (_ext(xs, 0), _ext(ys, 0), _ext(xs, 1), _ext(ys, 1))


def _ext(v, hi):
    """Smallest or largest value; the path decides which."""
    b = v[0]
    for x in v[1:]:
        if x.same(b):
            continue
        if (x > b) if hi else (x < b):
            b = x
    return b


class Polygon(Geom):
    _rc = R.Polygon

    def __init__(self, shell=None, holes=None):
        if shell is None:
            shell = []
        if isinstance(shell, Polygon):
            holes = holes or shell.interiors
            shell = shell.exterior
        self._e = shell if isinstance(shell, LinearRing) and (
            type.__instancecheck__(LinearRing, shell)
        ) else LinearRing(shell)
        self._h = [
            h if type.__instancecheck__(LinearRing, h) else LinearRing(h)
            for h in (holes or [])
        ]
        self._area = None
        self._bnd = None

    exterior = property(lambda s: s._e)
    interiors = property(lambda s: list(s._h))

    @property
    def is_empty(self):
        return len(self._e._r) < 3

    @property
    def boundary(self):
        if self._h:
            raise Unsupported('boundary')
        return self._e

    @property
    def length(self):
        t = self._e.length
        for h in self._h:
            t = t + h.length
        return t

    def _signed(self):
        """[(sign, ring, 2*signed area)], sign makes the total positive."""
        out = []
        for k, r in enumerate([self._e] + self._h):
            a = signed_area2(r._r)
            s = 1 if r.is_ccw else -1
            out.append((s if k == 0 else -s, r._r, a))
        return out

    @property
    def area(self):
        if self._area is None:
            t = K.ZERO
            if not self.is_empty:
                for s, _r, a in self._signed():
                    t = t + a * s
            self._area = t / 2
        return self._area

    @property
    def centroid(self):
        return _Centroid(self)

    def _centroid(self):
        A = sx = sy = K.ZERO
        for s, r, _a in self._signed():
            n = len(r)
            for i in range(n):
                (x0, y0), (x1, y1) = r[i], r[(i + 1) % n]
                c = (x0 * y1 - x1 * y0) * s
                A = A + c
                sx = sx + c * (x0 + x1)
                sy = sy + c * (y0 + y1)
        return sx / (A * 3), sy / (A * 3)

    def representative_point(self):
        """Middle of the longest section of a line between two vertices."""
        rings = [self._e._r] + [h._r for h in self._h]
        _x0, ylo, _x1, yhi = self.bounds
        mid = (ylo + yhi) / 2
        lo, hi = ylo, yhi
        for r in rings:
            for _x, y in r:
                if bool(y <= mid):
                    lo = y if bool(y > lo) else lo
                else:
                    hi = y if bool(y < hi) else hi
        y = (lo + hi) / 2
        xs = []
        for r in rings:
            for (xa, ya), (xb, yb) in zip(r, r[1:] + r[:1]):
                if bool(ya > y) != bool(yb > y):
                    x = xa + (xb - xa) * (y - ya) / (yb - ya)
                    k = 0
                    while k < len(xs) and bool(xs[k] < x):
                        k += 1
                    xs.insert(k, x)
        best = None
        for a, b in zip(xs[::2], xs[1::2]):
            if best is None or bool(b - a > best[1] - best[0]):
                best = (a, b)
        return Point((best[0] + best[1]) / 2, y)

    point_on_surface = representative_point

    @property
    def bounds(self):
        if self._bnd is None:
            self._bnd = _bounds(self._e._r)
        return self._bnd

    def map(self, f, iso=None):
        p = Polygon(
            self._e.map(f, iso), [h.map(f, iso) for h in self._h]
        )
        if iso is not None:
            p._area = self._area
        return p

    def intersects(self, o):
        if isinstance(o, LineString):
            return line_intersects(o, self)
        raise Unsupported('intersects of two polygons')

    def intersection(self, o, **k):
        return clip_convex(self, o)

    def difference(self, o, **k):
        return poly_difference(self, o)

    def is_convex_(self):
        r = self._e._r
        n = len(r)
        s = 1 if self._e.is_ccw else -1
        return not self._h and all(
            bool(_cross(r[i], r[(i + 1) % n], r[(i + 2) % n]) * s >= 0)
            for i in range(n)
        )

    @property
    def convex_hull(self):
        return hull(self._e._r)

    def buffer(self, d, **k):
        if K.S(d).is_const() and K.S(d).const() == 0:
            return self
        raise Unsupported('buffer of a polygon')

    def _real(self):
        e = [_fl(p) for p in self._e._p]
        h = [[_fl(p) for p in x._p] for x in self._h]
        if None in e or any(None in x for x in h):
            return None
        return R.Polygon(e if len(e) > 3 else None, h)


_UNIT = {}


class _Circle(Polygon):
    """Lazily built buffer of a point."""

    _rc = None

    def __init__(self, c, r, qs):
        self.__dict__.update(
            _c=c, _rad=r, _qs=qs, _area=None, _bnd=None, _h=[], _ee=None
        )

    @property
    def _e(self):
        if self.__dict__['_ee'] is None:
            u = _UNIT.get(self._qs)
            if u is None:
                u = list(
                    R.Point(0, 0).buffer(1, quad_segs=self._qs)
                    .exterior.coords
                )[:-1]
                _UNIT[self._qs] = u = [(num(a), num(b)) for a, b in u]
            r = self._rad
            if bool(r <= 0):
                self.__dict__['_ee'] = LinearRing([])
            else:
                self.__dict__['_ee'] = LinearRing(
                    [(self._c._x + r * a, self._c._y + r * b) for a, b in u],
                    False,
                )
        return self.__dict__['_ee']

    @property
    def geom_type(self):
        return 'Polygon'


class _Multi(Geom):
    def __init__(self, geoms=None):
        if isinstance(geoms, _Multi):
            geoms = geoms.geoms
        self._g = [self._conv(g) for g in (geoms or [])]

    @staticmethod
    def _conv(g):
        return g

    geoms = property(lambda s: list(s._g))

    @property
    def is_empty(self):
        return all(g.is_empty for g in self._g)

    @property
    def area(self):
        t = K.ZERO
        for g in self._g:
            t = t + g.area
        return t

    @property
    def length(self):
        t = K.ZERO
        for g in self._g:
            t = t + g.length
        return t

    @property
    def bounds(self):
        b = [g.bounds for g in self._g]
        return (
            _ext([x[0] for x in b], 0), _ext([x[1] for x in b], 0),
            _ext([x[2] for x in b], 1), _ext([x[3] for x in b], 1),
        )

    def map(self, f, iso=None):
        return type(self)([g.map(f, iso) for g in self._g])

    def _real(self):
        g = [to_real(x) for x in self._g]
        return None if None in g else self._rc(g)


class MultiPolygon(_Multi):
    _rc = R.MultiPolygon

    @staticmethod
    def _conv(g):
        if isinstance(g, Polygon):
            return g
        if isinstance(g, R.Polygon):
            return from_real(g)
        if isinstance(g, (list, tuple)):
            return Polygon(*g)
        raise TypeError('MultiPolygon of something else')


class MultiLineString(_Multi):
    _rc = R.MultiLineString

    @staticmethod
    def _conv(g):
        return g if isinstance(g, LineString) else LineString(g)

    @property
    def convex_hull(self):
        return hull([p for g in self._g for p in g._p])


class GeometryCollection(_Multi):
    _rc = R.GeometryCollection


class Pieces(Polygon):
    """Polygon given as pieces with disjoint interiors."""

    _rc = None

    def __init__(self, parts):
        self.__dict__.update(_parts=list(parts), _area=None, _bnd=None)

    @property
    def _e(self):
        return LinearRing(bridge(self._parts), True)

    @property
    def _h(self):
        return []

    @property
    def is_empty(self):
        return all(p.is_empty for p in self._parts)

    @property
    def exterior(self):
        return _Bridged(self)

    @property
    def geom_type(self):
        return 'Polygon'

    def _signed(self):
        return [x for p in self._parts for x in p._signed()]

    @property
    def bounds(self):
        if self._bnd is None:
            self.__dict__['_bnd'] = MultiPolygon(self._parts).bounds
        return self._bnd

    @property
    def length(self):
        return self.exterior.length

    def map(self, f, iso=None):
        p = Pieces([g.map(f, iso) for g in self._parts])
        if iso is not None:
            p._area = self._area
        return p


class _Bridged(LinearRing):
    """One closed ring that runs through all pieces."""

    _rc = None

    def __init__(self, p):
        self.__dict__.update(_src=p, _ccw=True)

    @property
    def _r(self):
        return bridge(self._src._parts)

    @property
    def _p(self):
        r = self._r
        return r + r[:1]

    @property
    def length(self):
        return _union_length(self._src._parts)


def _zero(x):
    return not hasattr(x, 'is_const') and x == 0 or (
        hasattr(x, 'is_const') and x.is_const() and x.const() == 0
    )


def _seg_len(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    if _zero(dx):
        return K.s_abs(dy)
    if _zero(dy):
        return K.s_abs(dx)
    return K.s_root(dx * dx + dy * dy, 2)


def _union_length(parts):
    """Outline of touching pieces; an edge counts as shared only when it is
    so for every value of the inputs.
    """
    edges = []
    tot = K.ZERO
    for k, p in enumerate(parts):
        if p.interiors:
            raise K.Unsupported('outline of a union with holes')
        for _s, r, _a in p._signed():
            for i in range(len(r)):
                a, b = r[i], r[(i + 1) % len(r)]
                edges.append((k, a, b))
                tot = tot + _seg_len(a, b)
    for i, (k, a, b) in enumerate(edges):
        for q, c, d in edges[:i]:
            if q == k or not _zero(_cross(a, b, c)) or not _zero(
                _cross(a, b, d)
            ):
                continue
            # overlap along the common line
            ax = 0 if not _zero(b[0] - a[0]) else 1
            lo = K.s_max(K.s_min(a[ax], b[ax]), K.s_min(c[ax], d[ax]))
            hi = K.s_min(K.s_max(a[ax], b[ax]), K.s_max(c[ax], d[ax]))
            if bool(hi > lo):
                part = (hi - lo) / K.s_abs(b[ax] - a[ax])
                tot = tot - 2 * part * _seg_len(a, b)
    return tot


def bridge(parts):
    """Closed vertex list whose line integrals are the sum over the rings."""
    out = []
    o = None
    for p in parts:
        for s, r, _a in p._signed():
            if len(r) < 3:
                continue
            ccw_sign = None
            del ccw_sign
            q = list(r)
            # orient: positive rings ccw, negative ones cw
            want = s  # s * signed area counts positive for the total
            if want < 0:
                q = q[::-1]
            if o is None:
                o = q[0]
            out += q + [q[0]]
            if q[0] is not o:
                out.append(o)
    return out


# -- predicates and constructions ------------------------------------------


def side(p0, p1, v):
    return _cross(p0, p1, v)


def _rot_to(r, k):
    return r[k:] + r[:k]


def clip_ring(r, dist, touch=None):
    """Parts of the simple ring r where dist > 0: list of vertex lists.

    touch, if given, is called with the vertices and the signs of their
    distances unless the ring is on one side of the line.
    """
    d = [dist(v) for v in r]
    pos = [bool(x > 0) for x in d]
    if all(pos):
        return [list(r)]
    neg = [(not p) and bool(x < 0) for p, x in zip(pos, d)]
    if touch is not None and any(neg) and not all(
            p or q for p, q in zip(pos, neg)):
        touch(r, pos, neg)
    if not any(pos):
        return []
    if not any(neg):
        return [list(r)]
    n = len(r)
    k0 = next(
        i for i in range(n) if not pos[i] and pos[(i + 1) % n]
    )
    chains = []
    cur = None
    for q in range(n):
        i = (k0 + q) % n
        j = (i + 1) % n
        if not pos[i] and pos[j]:
            cur = [_cut(r[i], r[j], d[i], d[j], neg[i])]
        if pos[j] and cur is not None:
            cur.append(r[j])
        if pos[i] and not pos[j]:
            cur.append(_cut(r[j], r[i], d[j], d[i], neg[j]))
            chains.append(cur)
            cur = None
    return chains


def _cut(a, b, da, db, strict):
    """Point between a (da <= 0) and b (db > 0) with distance zero."""
    if not strict:
        return a
    t = da / (da - db)
    return (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)


def _join(chains, key):
    """Close chains along the line; key orders the points on it."""
    if len(chains) <= 1:
        return chains
    ends = []
    for i, ch in enumerate(chains):
        ends.append((key(ch[0]), i, 0))
        ends.append((key(ch[-1]), i, 1))
    import functools

    def cmp(a, b):
        if a[0].same(b[0]):
            return 0
        return -1 if bool(a[0] < b[0]) else (1 if bool(a[0] > b[0]) else 0)

    ends.sort(key=functools.cmp_to_key(cmp))
    mate = {}
    # chains alternate along the line; where two meet in a point of the
    # line, order them so that a start is joined to an end
    for i in range(0, len(ends) - 2, 2):
        a, b = ends[i], ends[i + 1]
        j = i + 2
        while a[2] == b[2] and j < len(ends) and ends[j][0].same(b[0]):
            if ends[j][2] != a[2]:
                ends[i + 1], ends[j] = ends[j], b
                b = ends[i + 1]
            j += 1
    for a, b in zip(ends[::2], ends[1::2]):
        mate[a[1:]] = b[1:]
        mate[b[1:]] = a[1:]
    used = set()
    out = []
    for i in range(len(chains)):
        if i in used:
            continue
        ring = []
        j = i
        while j not in used:
            used.add(j)
            ring += chains[j]
            j2, e = mate[(j, 1)]
            if e != 0:
                raise Unsupported('clip: chains do not pair up')
            j = j2
        if j != i:
            raise Unsupported('clip: open ring')
        out.append(ring)
    return out


def _halfplane(poly, p0, p1, low=None):
    """Pieces of poly strictly left of p0->p1.

    Edges and vertices of poly on the line with the polygon on the right
    are appended to the list low.
    """
    if isinstance(poly, Pieces):
        out = []
        for q in poly._parts:
            out += _halfplane(q, p0, p1)
        return [Pieces(out)] if out else []
    dx, dy = p1[0] - p0[0], p1[1] - p0[1]

    def contact(ring, outer):
        """Collect the contacts of a ring of the polygon."""
        if low is None:
            return None

        def f(r, pos, neg):
            n = len(r)
            ccw = ring.is_ccw == outer
            zero = [not (a or b) for a, b in zip(pos, neg)]
            for i in range(n):
                j, k = (i + 1) % n, (i + 2) % n
                if zero[i] and zero[j]:
                    s = (r[j][0] - r[i][0]) * dx + (r[j][1] - r[i][1]) * dy
                    if bool(s < 0) == ccw:
                        low.append(LineString([r[i], r[j]]))
                elif neg[i] and zero[j] and neg[k]:
                    if bool(_cross(r[i], r[j], r[k]) > 0) == ccw:
                        low.append(Point(*r[j]))
        return f

    def dist(v):
        return dx * (v[1] - p0[1]) - dy * (v[0] - p0[0])

    def key(v):
        return (v[0] - p0[0]) * dx + (v[1] - p0[1]) * dy

    e = poly._e._r
    ch = clip_ring(e, dist, contact(poly._e, True))
    if len(ch) == 1 and len(ch[0]) == len(e) and all(
        a is b for a, b in zip(ch[0], e)
    ):
        return [poly]
    rings = _join(ch, key)
    ccw = poly._e._ccw
    pieces = [Polygon(LinearRing(r, ccw)) for r in rings]
    for h in poly._h:
        hs = _join(clip_ring(h._r, dist, contact(h, False)), key)
        hr = [LinearRing(r, h._ccw) for r in hs]
        if not hr:
            continue
        if len(pieces) == 1:
            pieces[0]._h += hr
        else:
            for x in hr:
                for p in pieces:
                    if _inside(x._r, p._e._r):
                        p._h.append(x)
                        break
                else:
                    raise Unsupported('hole in no piece')
    return pieces


def _inside(pts, ring):
    """Mean point of pts inside the simple ring (ray casting)."""
    n = len(pts)
    x = y = K.ZERO
    for p in pts:
        x, y = x + p[0], y + p[1]
    x, y = x / n, y / n
    c = False
    m = len(ring)
    for i in range(m):
        (x0, y0), (x1, y1) = ring[i], ring[(i + 1) % m]
        u, v = bool(y0 > y), bool(y1 > y)
        if u != v:
            xc = x0 + (x1 - x0) * (y - y0) / (y1 - y0)
            if bool(xc > x):
                c = not c
    return c


def _collect(pieces):
    pieces = [p for p in pieces if not p.is_empty]
    if not pieces:
        return Polygon()
    if len(pieces) == 1:
        return pieces[0]
    return MultiPolygon(pieces)


def clip_convex(poly, o):
    """Intersection of a polygon with a convex polygon."""
    if isinstance(o, MultiPolygon):
        out = []
        for g in o.geoms:
            r = clip_convex(poly, g)
            out += r.geoms if isinstance(r, MultiPolygon) else [r]
        return _collect(out)
    if not isinstance(o, Polygon):
        if isinstance(o, LineString):
            return GeometryCollection([])
        raise Unsupported('intersection with a non polygon')
    if isinstance(o, R.Polygon):
        o = from_real(o)
    if o.is_empty:
        return Polygon()
    if not o.is_convex_():
        if poly.is_convex_():
            return clip_convex(o, poly)
        raise Unsupported('intersection with a non convex polygon')
    r = o._e._r
    if not o._e.is_ccw:
        r = r[::-1]
    ps = [poly]
    low = []
    n = len(r)
    for i in range(n):
        a, b = r[i], r[(i + 1) % n]
        nxt, new = [], []
        for p in ps:
            nxt += _halfplane(p, a, b, new)
        ps = nxt
        low = [g for g in low if _on_left(g, a, b)] + new
        if not ps:
            break
    ps = [p for p in ps if not p.is_empty]
    if not low:
        return _collect(ps)
    # contacts of lower dimension, as GEOS returns them
    if ps:
        return GeometryCollection(ps + low)
    return low[0] if len(low) == 1 else GeometryCollection(low)


def _on_left(g, p0, p1):
    """Whether a contact (or part of it) is left of the line p0->p1."""
    pts = g.coords
    return any(bool(_cross(p0, p1, v) >= 0) for v in pts)


def poly_difference(a, b):
    if isinstance(b, R.Polygon):
        b = from_real(b)
    if isinstance(b, MultiPolygon):
        for g in b.geoms:
            a = poly_difference(a, g)
        return a
    if isinstance(b, Pieces) or isinstance(a, Pieces):
        raise Unsupported('difference of composed polygons')
    if not isinstance(b, Polygon):
        return a
    c = clip_convex(a, b)
    cs = c.geoms if isinstance(c, MultiPolygon) else [c]
    cs = [x for x in cs if not x.is_empty]
    if not cs:
        return a
    inner = all(
        len(x._e._r) == len(b._e._r) and not x._h for x in cs
    ) and len(cs) == 1
    if inner:
        # strictly inside: a hole
        return Polygon(a._e, a._h + [cs[0]._e])
    # b cuts the boundary: keep the parts outside of each edge of b
    if not b.is_convex_():
        raise Unsupported('difference with a non convex polygon')
    r = b._e._r
    if not b._e.is_ccw:
        r = r[::-1]
    rest, out = [a], []
    n = len(r)
    for i in range(n):
        p, q = r[i], r[(i + 1) % n]
        nxt = []
        for g in rest:
            out += _halfplane(g, q, p)
            nxt += _halfplane(g, p, q)
        rest = nxt
    out = [g for g in out if not g.is_empty]
    if not out:
        return Polygon()
    if len(out) == 1:
        return out[0]
    return _connect(out)


def _connect(parts):
    """Group parts that share boundary: Pieces, or MultiPolygon."""
    n = len(parts)
    bs = [p.bounds for p in parts]
    grp = list(range(n))

    def find(i):
        while grp[i] != i:
            i = grp[i]
        return i

    for i in range(n):
        for j in range(i):
            a, b = bs[i], bs[j]
            sep = (
                bool(a[0] > b[2]) or bool(b[0] > a[2])
                or bool(a[1] > b[3]) or bool(b[1] > a[3])
            )
            if not sep:
                grp[find(i)] = find(j)
    cl = {}
    for i in range(n):
        cl.setdefault(find(i), []).append(parts[i])
    out = [c[0] if len(c) == 1 else Pieces(c) for c in cl.values()]
    return out[0] if len(out) == 1 else MultiPolygon(out)


def unary_union(geoms, **k):
    if isinstance(geoms, _Multi):
        geoms = geoms.geoms
    gs = []
    for g in geoms:
        if isinstance(g, R.Geometry):
            g = from_real(g)
        if isinstance(g, MultiPolygon):
            gs += g.geoms
        elif isinstance(g, Pieces):
            gs += g._parts
        elif isinstance(g, Polygon):
            gs.append(g)
        else:
            raise Unsupported('union of something else than polygons')
    gs = [g for g in gs if not g.is_empty]
    if not gs:
        return Polygon()
    if len(gs) == 1:
        return gs[0]
    rs = [to_real(g) for g in gs]
    if None not in rs:
        return from_real(R.ops.unary_union(rs))
    keep = []
    for g in gs:
        for h in keep:
            if _bb_disjoint(g.bounds, h.bounds):
                continue
            if g.is_convex_() and h.is_convex_():
                c = clip_convex(g, h)
                if c.is_empty or bool(c.area == 0):
                    continue
                if len(c._e._r) == len(g._e._r) and bool(
                    c.area == g.area
                ):
                    break  # g lies in h
            raise Unsupported('union of overlapping polygons')
        else:
            keep.append(g)
    return keep[0] if len(keep) == 1 else _connect(keep)


def _bb_disjoint(a, b):
    """Interiors of the bounding boxes are disjoint."""
    return (
        bool(a[0] >= b[2]) or bool(b[0] >= a[2])
        or bool(a[1] >= b[3]) or bool(b[1] >= a[3])
    )


def hull(pts):
    import functools

    u = []
    for p in pts:
        if not any(_same(p, q) for q in u):
            u.append(p)

    def cmp(a, b):
        for k in (0, 1):
            if a[k].same(b[k]):
                continue
            if bool(a[k] < b[k]):
                return -1
            if bool(a[k] > b[k]):
                return 1
        return 0

    u.sort(key=functools.cmp_to_key(cmp))
    v = []
    for p in u:
        if not v or cmp(v[-1], p) != 0:
            v.append(p)
    if len(v) == 1:
        return Point(v[0])
    if len(v) == 2:
        return LineString(v)

    def half(seq):
        h = []
        for p in seq:
            while len(h) >= 2 and not bool(_cross(h[-2], h[-1], p) > 0):
                h.pop()
            h.append(p)
        return h

    lo, up = half(v), half(v[::-1])
    r = lo[:-1] + up[:-1]
    if len(r) < 3:
        return LineString([v[0], v[-1]])
    return Polygon(LinearRing(r, True))


def _chords(poly, p0, p1):
    """Intervals of the parameter along p0->p1 inside the exterior ring.

    Returns (intervals, touching parameters, has_pos, has_neg).
    """
    dx, dy = p1[0] - p0[0], p1[1] - p0[1]
    L2 = dx * dx + dy * dy
    r = poly._e._r
    d = [dx * (v[1] - p0[1]) - dy * (v[0] - p0[0]) for v in r]
    pos = [bool(x > 0) for x in d]
    neg = [(not p) and bool(x < 0) for p, x in zip(pos, d)]
    n = len(r)

    def t(v):
        return ((v[0] - p0[0]) * dx + (v[1] - p0[1]) * dy) / L2

    touch = [
        t(r[i]) for i in range(n) if not pos[i] and not neg[i]
    ]
    ts = []
    for i in range(n):
        j = (i + 1) % n
        if pos[i] != pos[j]:
            if pos[i]:
                c = _cut(r[j], r[i], d[j], d[i], neg[j])
            else:
                c = _cut(r[i], r[j], d[i], d[j], neg[i])
            ts.append(t(c))
    return ts, touch, any(pos), any(neg)


def _sorted(ts):
    import functools

    return sorted(
        ts,
        key=functools.cmp_to_key(
            lambda a, b: 0 if a.same(b) else (
                -1 if bool(a < b) else (1 if bool(a > b) else 0)
            )
        ),
    )


def line_intersects(line, poly):
    if isinstance(poly, LineString):
        raise Unsupported('intersects of two lines')
    if isinstance(poly, R.Polygon):
        poly = from_real(poly)
    if len(line._p) != 2:
        raise Unsupported('line with more than two points')
    if isinstance(poly, MultiPolygon):
        return any([line_intersects(line, g) for g in poly.geoms])
    if isinstance(poly, Pieces):
        return any([line_intersects(line, g) for g in poly._parts])
    ts, touch, hp, hn = _chords(poly, *line._p)
    if hp and hn and _spans(poly, *line._p):
        return True
    if not (hp and hn):
        return any(bool(x >= 0) and bool(x <= 1) for x in touch)
    ts = _sorted(ts)
    hit = False
    for a, b in zip(ts[::2], ts[1::2]):
        if bool(a <= 1) and bool(b >= 0):
            hit = True
    if hit and poly._h:
        # a line that stays inside a hole does not meet the polygon
        for h in poly._h:
            hs, _t, p, n = _chords(Polygon(h), *line._p)
            if p and n:
                hs = _sorted(hs)
                if bool(hs[0] < 0) and bool(hs[-1] > 1):
                    raise Unsupported('line inside a hole')
    return hit or any(bool(x >= 0) and bool(x <= 1) for x in touch)


def split(geom, splitter):
    if isinstance(geom, R.Polygon):
        geom = from_real(geom)
    if not isinstance(geom, Polygon) or not isinstance(splitter, LineString):
        raise Unsupported('split of something else')
    if len(splitter._p) != 2:
        raise Unsupported('split by a line with more than two points')
    p0, p1 = splitter._p
    if isinstance(geom, Pieces):
        up, dn, whole = [], [], []
        for q in geom._parts:
            up += _halfplane(q, p0, p1)
            dn += _halfplane(q, p1, p0)
            if _covers(q, p0, p1) is False:
                whole.append(q)
        if whole:
            raise Unsupported('partial split of a composed polygon')
        if not up or not dn:
            return GeometryCollection([geom])
        return GeometryCollection([Pieces(up), Pieces(dn)])
    cov = _covers(geom, p0, p1)
    if cov is None:
        return GeometryCollection([geom])
    if cov is False:
        ts, _t, _p, _n = _chords(geom, p0, p1)
        if len(ts) > 2 or geom._h:
            raise Unsupported('line ends inside a polygon')
        return GeometryCollection([geom])
    return GeometryCollection(
        _halfplane(geom, p0, p1) + _halfplane(geom, p1, p0)
    )


def _covers(poly, p0, p1):
    """None: line misses; True: segment covers every chord; False: not."""
    ts, _touch, hp, hn = _chords(poly, p0, p1)
    if not (hp and hn):
        return None
    if _spans(poly, p0, p1):
        return True
    return all(bool(x >= 0) and bool(x <= 1) for x in ts)


def _spans(poly, p0, p1):
    """Whether the segment surely reaches beyond the polygon in x or y."""
    for k in (0, 1):
        for a, b in ((p0, p1), (p1, p0)):
            if all(
                _implied(a[k] < v[k]) and _implied(v[k] < b[k])
                for v in poly._e._r
            ):
                return True
    return False


def _implied(b):
    if not isinstance(b, K.SymBool):
        return bool(b)
    return K.CTX.implied(b)


def orient(poly, sign=1.0):
    if isinstance(poly, R.Polygon):
        poly = from_real(poly)
    if isinstance(poly, Pieces):
        if sign < 0:
            raise Unsupported('orient')
        return poly
    if isinstance(poly, MultiPolygon):
        return MultiPolygon([orient(p, sign) for p in poly.geoms])
    if not isinstance(poly, Polygon):
        return poly
    want = sign >= 0

    def o(r, w):
        return r if r.is_ccw == w else LinearRing(r._r[::-1], w)

    p = Polygon(o(poly._e, want), [o(h, not want) for h in poly._h])
    p._area, p._bnd = poly._area, poly._bnd
    return p


# -- affinity ---------------------------------------------------------------


def _lift(g):
    return from_real(g) if isinstance(g, R.Geometry) else g


def _origin(g, origin):
    if isinstance(origin, str):
        if origin == 'center':
            b = g.bounds
            return ((b[0] + b[2]) / 2, (b[1] + b[3]) / 2)
        if origin == 'centroid':
            return _pt(g.centroid)
        raise ValueError(origin)
    return _pt(origin)


def a_translate(geom, xoff=0.0, yoff=0.0, zoff=0.0):
    g = _lift(geom)
    dx, dy = num(xoff), num(yoff)
    return g.map(lambda p: (p[0] + dx, p[1] + dy), 1)


def a_rotate(geom, angle, origin='center', use_radians=False):
    g = _lift(geom)
    angle = num(angle)
    if not use_radians:
        angle = angle * math.pi / 180.0
    c, s = K.s_trig(num(angle))
    x0, y0 = _origin(g, origin)
    return g.map(
        lambda p: (
            x0 + c * (p[0] - x0) - s * (p[1] - y0),
            y0 + s * (p[0] - x0) + c * (p[1] - y0),
        ),
        1,
    )


def a_affine(geom, matrix):
    g = _lift(geom)
    if len(matrix) != 6:
        raise Unsupported('3d affine transform')
    a, b, d, e, xo, yo = [num(v) for v in matrix]
    det = a * e - b * d
    iso = None
    if det.is_const() and abs(det.const()) == 1:
        iso = 1 if det.const() > 0 else -1
    return g.map(
        lambda p: (a * p[0] + b * p[1] + xo, d * p[0] + e * p[1] + yo), iso
    )


def a_scale(geom, xfact=1.0, yfact=1.0, zfact=1.0, origin='center'):
    g = _lift(geom)
    x0, y0 = _origin(g, origin)
    fx, fy = num(xfact), num(yfact)
    iso = None
    if abs(xfact) == 1 and abs(yfact) == 1:
        iso = 1 if xfact * yfact > 0 else -1
    return g.map(
        lambda p: (x0 + fx * (p[0] - x0), y0 + fy * (p[1] - y0)), iso
    )


def set_precision(g, grid_size=0.0, **k):
    # rounding to a grid of 1e-12 relative size is outside exact arithmetic
    if isinstance(g, (list, tuple, np.ndarray)):
        return [set_precision(x, grid_size) for x in g]
    r = to_real(_lift(g))
    if r is not None:
        return from_real(R.set_precision(r, grid_size=_conc(grid_size), **k))
    return g


def _concrete_fn(f):
    return _delegate(f)


# -- conversion -------------------------------------------------------------


def to_real(g):
    if isinstance(g, R.Geometry):
        return g
    try:
        f = type(g)._real
    except AttributeError:
        return None
    if type(g) in (Pieces, _Bridged, _Circle):
        if type(g) is _Circle:
            e = [_fl(p) for p in g._e._p]
            return None if None in e else R.Polygon(e)
        return None
    return f(g)


def from_real(v):
    if isinstance(v, (list, tuple)) and any(
        isinstance(x, R.Geometry) for x in v
    ):
        return type(v)(from_real(x) for x in v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        r = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            r[i] = from_real(v[i])
        return r
    if not isinstance(v, R.Geometry):
        return v
    if isinstance(v, R.Point):
        return Point(v.x, v.y)
    if isinstance(v, R.LinearRing):
        return LinearRing(list(v.coords))
    if isinstance(v, R.LineString):
        return LineString(list(v.coords)) if not v.is_empty else (
            GeometryCollection([])
        )
    if isinstance(v, R.Polygon):
        if v.is_empty:
            return Polygon()
        return Polygon(
            [(num(a), num(b)) for a, b in list(v.exterior.coords)[:-1]],
            [list(h.coords) for h in v.interiors],
        )
    for rc, c in (
        (R.MultiPolygon, MultiPolygon), (R.MultiLineString, MultiLineString),
        (R.GeometryCollection, GeometryCollection),
    ):
        if isinstance(v, rc):
            return c([from_real(g) for g in v.geoms])
    raise Unsupported(f'shapely {type(v).__name__}')


CLASSES = {
    'Point': Point, 'LineString': LineString, 'LinearRing': LinearRing,
    'Polygon': Polygon, 'MultiPolygon': MultiPolygon,
    'MultiLineString': MultiLineString,
    'GeometryCollection': GeometryCollection,
}
AFF = {
    'translate': a_translate, 'rotate': a_rotate,
    'affine_transform': a_affine, 'scale': a_scale,
}
OPS = {
    'split': split, 'unary_union': unary_union,
    'linemerge': linemerge,
}
TOP = {
    'unary_union': unary_union, 'union_all': unary_union,
    'set_precision': set_precision,
    'polygonize': polygonize, 'get_geometry': get_geometry,
    'line_merge': linemerge,
    'orient_polygons': lambda p, exterior_cw=False, **k: orient(
        p, -1.0 if exterior_cw else 1.0
    ),
}
for _n in ('offset_curve', 'buffer', 'line_merge', 'intersection',
           'difference', 'union', 'convex_hull', 'area', 'intersects',
           'contains', 'within', 'covers', 'simplify', 'get_parts',
           'get_coordinates', 'is_ccw', 'points', 'polygons', 'box'):
    if hasattr(R, _n):
        TOP.setdefault(_n, _delegate(getattr(R, _n)))


def _gfun(name):
    def f(a, *r, **k):
        v = getattr(_lift(a), name)
        return v(*r, **k) if callable(v) else v

    return f


for _n in ('intersection', 'difference', 'union', 'convex_hull', 'area',
           'intersects'):
    TOP[_n] = _gfun(_n)

AFF_SHIM = ModShim(R.affinity, AFF)
OPS_SHIM = ModShim(R.ops, OPS)
PG_SHIM = ModShim(
    sys.modules['shapely.geometry.polygon'], {**CLASSES, 'orient': orient}
)
GEO_SHIM = ModShim(R.geometry, {**CLASSES, 'polygon': PG_SHIM})
TOP_SHIM = ModShim(
    R, {**CLASSES, **TOP, 'affinity': AFF_SHIM, 'ops': OPS_SHIM,
        'geometry': GEO_SHIM}
)

EXTRA = {
    id(R): TOP_SHIM, id(R.affinity): AFF_SHIM, id(R.ops): OPS_SHIM,
    id(R.geometry): GEO_SHIM,
    id(sys.modules['shapely.geometry.polygon']): PG_SHIM,
    id(R.geometry.polygon.orient): orient,
}
for _k, _v in CLASSES.items():
    EXTRA[id(getattr(R, _k))] = _v
for _k, _v in TOP.items():
    if hasattr(R, _k):
        EXTRA[id(getattr(R, _k))] = _v
for _k, _v in AFF.items():
    EXTRA[id(getattr(R.affinity, _k))] = _v
for _k, _v in OPS.items():
    EXTRA[id(getattr(R.ops, _k))] = _v

SYM = types.SimpleNamespace(
    **CLASSES, **AFF, split=split, unary_union=unary_union, orient=orient
)
CON = types.SimpleNamespace(
    Point=R.Point, LineString=R.LineString, LinearRing=R.LinearRing,
    Polygon=R.Polygon, MultiPolygon=R.MultiPolygon,
    MultiLineString=R.MultiLineString,
    GeometryCollection=R.GeometryCollection,
    translate=R.affinity.translate, rotate=R.affinity.rotate,
    affine_transform=R.affinity.affine_transform, scale=R.affinity.scale,
    split=R.ops.split, unary_union=R.ops.unary_union,
    orient=R.geometry.polygon.orient,
)


def lib(c):
    """The geometry library a harness should use."""
    return SYM if c.symbolic else CON
