"""Sparse multivariate polynomials over Q (dict: monomial -> Fraction).

A monomial is a sorted tuple of (atom_id, exponent>0) pairs; () is the
constant monomial.
"""

from fractions import Fraction

F0 = Fraction(0)
F1 = Fraction(1)
ONE = ()


def const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def var(i):
    return {((i, 1),): F1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_val(p):
    return p.get(ONE, F0)


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and ONE in p:
        return scale(q, p[ONE])
    if len(q) == 1 and ONE in q:
        return scale(p, q[ONE])
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            s = r.get(m)
            s = c1 * c2 if s is None else s + c1 * c2
            r[m] = s
    return {m: c for m, c in r.items() if c}


def power(p, n):
    r = const(1)
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def mono_gcd(p):
    """Largest monomial dividing every term of p."""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        if not g:
            break
        d = dict(m)
        g = {i: min(e, d[i]) for i, e in g.items() if i in d}
    return tuple(sorted(g.items()))


def mono_div(m, g):
    if not g:
        return m
    d = dict(m)
    for i, e in g:
        k = d[i] - e
        if k:
            d[i] = k
        else:
            del d[i]
    return tuple(sorted(d.items()))


def div_mono(p, g):
    if not g:
        return p
    return {mono_div(m, g): c for m, c in p.items()}


def gcd_mono2(a, b):
    d = dict(b)
    return tuple(
        sorted((i, min(e, d[i])) for i, e in a if i in d)
    )


def key(p):
    return tuple(sorted(p.items()))


def lead(p):
    """Deterministic leading monomial (graded lex order)."""
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def atoms(p):
    s = set()
    for m in p:
        for i, _ in m:
            s.add(i)
    return s


def degree(p):
    return max((sum(e for _, e in m) for m in p), default=0)


def diff(p, i):
    r = {}
    for m, c in p.items():
        for j, e in m:
            if j == i:
                m2 = mono_div(m, ((i, 1),))
                r[m2] = r.get(m2, F0) + c * e
                break
    return {m: c for m, c in r.items() if c}


def evaluate(p, env):
    """Evaluate with env: atom id -> number (float or Fraction)."""
    tot = 0
    for m, c in p.items():
        t = c
        for i, e in m:
            t = t * env[i] ** e
        tot = tot + t
    return tot


def evalf(p, env):
    tot = 0.0
    for m, c in p.items():
        t = float(c)
        for i, e in m:
            t *= env[i] ** e
        tot += t
    return tot


def exact_div(p, q):
    """Return p/q if q divides p exactly, else None (small sizes only)."""
    if not q:
        return None
    if is_const(q):
        return scale(p, 1 / const_val(q))
    if len(p) * len(q) > 4000:
        return None

    # plain lex order on full exponent vectors is an admissible term order
    ids = sorted(atoms(p) | atoms(q))
    if not atoms(q) <= atoms(p) and p:
        return None
    pos = {a: k for k, a in enumerate(ids)}
    n = len(ids)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)

    P = {vec(m): c for m, c in p.items()}
    Q = {vec(m): c for m, c in q.items()}
    lq = max(Q)
    cq = Q[lq]
    out = {}
    while P:
        lp = max(P)
        d = tuple(a - b for a, b in zip(lp, lq))
        if min(d) < 0:
            return None
        c = P[lp] / cq
        out[d] = c
        for m, cc in Q.items():
            k = tuple(a + b for a, b in zip(m, d))
            s = P.get(k, F0) - c * cc
            if s:
                P[k] = s
            else:
                P.pop(k, None)
        if len(out) > 400:
            return None
    return {
        tuple((ids[k], e) for k, e in enumerate(v) if e): c
        for v, c in out.items()
    }
