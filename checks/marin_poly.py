"""C07: moments of polygons by the real marin_integration."""

import numpy as np

from symx.harness import harness

B = ('vertex coordinates in [-1000, 1000], any position, orientation and '
     'shape including self-crossing ones')


def f():
    from structuralcodes.core._marin_integration import marin_integration

    return marin_integration


def verts(c, n, lo=-1000, hi=1000):
    return [(c.real(f'y{i}', lo, hi), c.real(f'z{i}', lo, hi))
            for i in range(n)]


def closed(v):
    v = list(v) + [v[0]]
    return [p[0] for p in v], [p[1] for p in v]


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def edge_moment(p, q, m, n):
    """Integral of y^m z^n over the signed triangle (origin, p, q).

    Independent of the code: with the map (s, t) -> s*p + t*q of the unit
    triangle, integral of s^a t^b is a! b! / (a+b+2)!.
    """
    det = p[0] * q[1] - q[0] * p[1]
    tot = 0.0
    for i in range(m + 1):
        for j in range(n + 1):
            a = (m - i) + (n - j)
            b = i + j
            k = binom(m, i) * binom(n, j) * fact(a) * fact(b)
            t = p[0] ** (m - i) * q[0] ** i * p[1] ** (n - j) * q[1] ** j
            tot = tot + t * k
    return tot * det / fact(m + n + 2)


def moment(v, m, n):
    tot = 0.0
    for k in range(len(v)):
        tot = tot + edge_moment(v[k], v[(k + 1) % len(v)], m, n)
    return tot


EXP = [dict(m=a, n=b) for a in range(5) for b in range(5) if a + b <= 4]
EXP_H = [dict(m=a, n=b) for a in range(8) for b in range(8)
         if 5 <= a + b <= 7]
EXP_T = [dict(m=a, n=b) for a in range(12) for b in range(12)
         if 8 <= a + b <= 11]


def exact_body(c, m, n, vertices=(3, 4, 7)):
    k = c.choice('vertices', list(vertices))
    v = verts(c, k)
    y, z = closed(v)
    if c.choice('container', ['list', 'array']) == 'array':
        t = object if c.symbolic else float
        y, z = np.array(y, dtype=t), np.array(z, dtype=t)
    e = moment(v, m, n)
    c.eq('moment', f()(y, z, m, n), e, rtol=1e-6,
         atol=1e-9 * 1000.0 ** (m + n + 2))


harness('C07', 'exact moment', params=EXP, bounds='3, 4 or 7 vertices; ' + B)(
    exact_body)


@harness('C07', 'exact moment of high order', params=EXP_H,
         bounds='3 or 4 vertices, total order 5 to 7; ' + B)
def high_order(c, m, n):
    exact_body(c, m, n, (3, 4))


@harness('C07', 'exact moment of very high order', params=EXP_T,
         tier='thorough',
         bounds='3 vertices, total order 8 to 11; ' + B)
def very_high_order(c, m, n):
    exact_body(c, m, n, (3,))


@harness('C07', 'triangle by its vertices', bounds=B)
def triangle(c):
    """Textbook area, centroid and second moments of a triangle."""
    v = verts(c, 3)
    y, z = closed(v)
    (a, b), (d, e), (g, h) = v
    A = ((d - a) * (h - b) - (g - a) * (e - b)) / 2
    s = 1000.0
    c.eq('area', f()(y, z, 0, 0), A, atol=1e-9 * s**2)
    c.eq('S_y', f()(y, z, 1, 0), A * (a + d + g) / 3, atol=1e-9 * s**3)
    c.eq('S_z', f()(y, z, 0, 1), A * (b + e + h) / 3, atol=1e-9 * s**3)
    c.eq('I_yy', f()(y, z, 0, 2),
         A * (b * b + e * e + h * h + b * e + e * h + h * b) / 6,
         atol=1e-9 * s**4)
    c.eq('I_zz', f()(y, z, 2, 0),
         A * (a * a + d * d + g * g + a * d + d * g + g * a) / 6,
         atol=1e-9 * s**4)
    c.eq('I_yz', f()(y, z, 1, 1),
         A * (2 * a * b + 2 * d * e + 2 * g * h + a * e + d * b + d * h
              + g * e + g * b + a * h) / 12, atol=1e-9 * s**4)


@harness('C07', 'orientation and start vertex', params=EXP,
         bounds='5 vertices; ' + B)
def orientation(c, m, n):
    v = verts(c, 5)
    g = f()
    at = 1e-9 * 1000.0 ** (m + n + 2)
    ref = g(*closed(v), m, n)
    c.eq('reversed', g(*closed(v[::-1]), m, n), -ref, atol=at)
    k = c.choice('shift', [1, 2, 3, 4])
    c.eq('other start', g(*closed(v[k:] + v[:k]), m, n), ref, atol=at)


@harness('C07', 'cutting along a diagonal', params=EXP,
         bounds='4 or 5 vertices; ' + B)
def additive(c, m, n):
    v = verts(c, c.choice('n', [4, 5]))
    g = f()
    k = c.choice('cut', [2, 3])
    if k >= len(v) - 1:
        return
    one, two = v[:k + 1], [v[0]] + v[k:]
    at = 1e-9 * 1000.0 ** (m + n + 2)
    c.eq('sum', g(*closed(one), m, n) + g(*closed(two), m, n),
         g(*closed(v), m, n), atol=at)


@harness('C07', 'translation', params=EXP,
         bounds='3 vertices, translation in [-500, 500]; ' + B)
def translation(c, m, n):
    v = verts(c, 3)
    dy, dz = c.real('dy', -500, 500), c.real('dz', -500, 500)
    g = f()
    w = [(p[0] + dy, p[1] + dz) for p in v]
    exp = 0.0
    for i in range(m + 1):
        for j in range(n + 1):
            exp = exp + binom(m, i) * binom(n, j) * dy ** (m - i) \
                * dz ** (n - j) * g(*closed(v), i, j)
    c.eq('binomial rule', g(*closed(w), m, n), exp,
         atol=1e-9 * 1500.0 ** (m + n + 2))


@harness('C07', 'point inserted on an edge', params=EXP,
         bounds='3 vertices, point anywhere on an edge or repeating a '
         'vertex; ' + B)
def degenerate(c, m, n):
    v = verts(c, 3)
    t = c.choice('where', ['inside', 0, 1])
    if t == 'inside':
        t = c.real('t', 0, 1)
    p = (v[0][0] * (1 - t) + v[1][0] * t, v[0][1] * (1 - t) + v[1][1] * t)
    g = f()
    c.eq('same moment', g(*closed([v[0], p] + v[1:]), m, n),
         g(*closed(v), m, n), atol=1e-9 * 1000.0 ** (m + n + 2))
