"""Symbolic reals, path conditions and the solver interface.

The real structuralcodes functions are executed with :class:`SymReal` values
(exact rational functions over *atoms*).  Every branch on a symbolic value is
recorded in the path condition; z3 decides which branches are feasible and
whether a property can be violated on a path.
"""

import math
import numbers
import os
import sys
import time
from fractions import Fraction

import numpy as np

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from . import poly as P  # noqa: E402

INF = math.inf


class PathAbort(BaseException):
    """Stops the current path (infeasible assumption, budget...)."""


class BudgetExceeded(BaseException):
    """Stops the harness."""


class Unsupported(Exception):
    """The engine cannot represent this operation."""


CTX = None  # the active context (SymCtx), or None


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported(f'non finite constant {x}')
    f = Fraction(x).limit_denominator(10000)
    if float(f) == x:
        return f
    return Fraction(repr(x))


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, Fraction)) or (
        isinstance(x, (bool, np.bool_))
    )


def is_sym(x):
    return isinstance(x, SymReal)


def has_sym(x, depth=0):
    """True if x is or contains symbolic values."""
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(
            isinstance(v, (SymReal, SymBool)) for v in x.flat
        )
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(v, depth + 1) for v in x)
    return False


# --------------------------------------------------------------------------
# Atoms


class Atom:
    __slots__ = (
        'id', 'name', 'kind', 'fn', 'args', 'extra', 'z3v', 'lo', 'hi',
        'deps', '_defs',
    )

    def __init__(self, id_, name, kind, fn=None, args=(), extra=None):
        self.id = id_
        self.name = name
        self.kind = kind
        self.fn = fn
        self.args = args
        self.extra = extra
        self.z3v = z3.Real(f'{name}!{id_}')
        self.lo = -INF
        self.hi = INF
        d = set()
        for a in args:
            d |= P.atoms(a.n) | P.atoms(a.d)
        self.deps = d
        self._defs = None


# --------------------------------------------------------------------------
# Boolean values


# values written into strings, if a harness collects them
FORMATTED = None


class SymBool:
    """A formula over polynomial comparisons."""

    __slots__ = ('op', 'a')

    def __init__(self, op, a):
        self.op = op  # 'lt0','le0','eq0' with a=poly ; 'and','or','not' ; const
        self.a = a

    # leaf: poly (op) 0
    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def logical_not(self):
        return not bool(self)

    def all(self, *a, **k):
        return bool(self)

    any = all

    def key(self):
        if self.op in ('lt0', 'le0', 'eq0'):
            return (self.op, P.key(self.a))
        return (self.op,) + tuple(x.key() if isinstance(x, SymBool) else x
                                  for x in self.a)

    def atoms(self):
        if self.op in ('lt0', 'le0', 'eq0'):
            return P.atoms(self.a)
        s = set()
        for x in self.a:
            if isinstance(x, SymBool):
                s |= x.atoms()
        return s

    def z3(self, cx):
        if self.op in ('lt0', 'le0', 'eq0'):
            e = cx.z3poly(self.a)
            if self.op == 'lt0':
                return e < 0
            if self.op == 'le0':
                return e <= 0
            return e == 0
        if self.op == 'not':
            return z3.Not(_bz3(self.a[0], cx))
        f = z3.And if self.op == 'and' else z3.Or
        return f(*[_bz3(x, cx) for x in self.a])

    def evalf(self, env, tol=1e-9):
        """True/False under env, None when too close to call."""
        if self.op in ('lt0', 'le0', 'eq0'):
            tot = 0.0
            mag = 0.0
            for m, c in self.a.items():
                t = float(c)
                for i, e in m:
                    try:
                        t *= env[i] ** e
                    except (OverflowError, KeyError):
                        return None
                tot += t
                mag += abs(t)
            if math.isnan(tot) or math.isinf(tot):
                return None
            s = tol * mag
            if self.op == 'eq0':
                if abs(tot) > s:
                    return False
                return None
            if tot < -s:
                return True
            if tot > s:
                return False
            return None
        if self.op == 'not':
            v = _bev(self.a[0], env, tol)
            return None if v is None else not v
        vals = [_bev(x, env, tol) for x in self.a]
        if self.op == 'and':
            if any(v is False for v in vals):
                return False
            return True if all(v is True for v in vals) else None
        if any(v is True for v in vals):
            return True
        return False if all(v is False for v in vals) else None


def _bz3(x, cx):
    if isinstance(x, SymBool):
        return x.z3(cx)
    return z3.BoolVal(bool(x))


def _bev(x, env, tol):
    if isinstance(x, SymBool):
        return x.evalf(env, tol)
    return bool(x)


def b_not(x):
    if not isinstance(x, SymBool):
        return not x
    if x.op == 'not':
        return x.a[0]
    if x.op == 'lt0':
        return SymBool('le0', P.neg(x.a))
    if x.op == 'le0':
        return SymBool('lt0', P.neg(x.a))
    if x.op == 'and':
        return b_or(*[b_not(y) for y in x.a])
    if x.op == 'or':
        return b_and(*[b_not(y) for y in x.a])
    return SymBool('not', (x,))


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool('and', tuple(out))


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool('or', tuple(out))


def b_implies(a, b):
    return b_or(b_not(a), b)


# --------------------------------------------------------------------------
# Real values


def norm_nd(n, d):
    """Normalise the fraction n/d (polynomials)."""
    if not n:
        return n, P.const(1)
    if P.is_const(d):
        c = P.const_val(d)
        return (n if c == 1 else P.scale(n, 1 / c)), P.const(1)
    g = P.gcd_mono2(P.mono_gcd(n), P.mono_gcd(d))
    if g:
        n, d = P.div_mono(n, g), P.div_mono(d, g)
        if P.is_const(d):
            return P.scale(n, 1 / P.const_val(d)), P.const(1)
    if len(d) > 1:
        if len(n) == len(d):
            # proportional?
            ln, ld = P.lead(n), P.lead(d)
            if ln == ld:
                k = n[ln] / d[ld]
                if all(m in n and n[m] == k * c for m, c in d.items()):
                    return P.const(k), P.const(1)
        if P.degree(d) <= P.degree(n):
            q = P.exact_div(n, d)
            if q is not None:
                return q, P.const(1)
        elif len(n) > 1:
            q = P.exact_div(d, n)
            if q is not None:
                n, d = P.const(1), q
    c = d[P.lead(d)]
    if c != 1:
        n, d = P.scale(n, 1 / c), P.scale(d, 1 / c)
    return n, d


def _is_nonfinite(o):
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)


def _nonfinite(x, o, op):
    o = float(o)
    if math.isnan(o):
        return math.nan
    if op == 'add':
        return o
    if op == 'sub':
        return -o
    if op == 'rsub':
        return o
    if op == 'div':
        return 0.0
    if bool(x > 0):
        return o
    if bool(x < 0):
        return -o
    if op == 'rdiv':
        raise ZeroDivisionError('float division by zero')
    return math.nan


def _rkey(p):
    return tuple(sorted((m, '%.11e' % c) for m, c in p.items()))


class SymReal:
    """n/d with n, d polynomials over atoms (d is never zero)."""

    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else P.const(1)

    # -- helpers
    @staticmethod
    def lift(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return SymReal(P.const(int(bool(x))))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return SymReal.lift(x.item())
        if is_num(x):
            return SymReal(P.const(to_frac(x)))
        return None

    def is_const(self):
        return P.is_const(self.n) and P.is_const(self.d)

    def const(self):
        return P.const_val(self.n) / P.const_val(self.d)

    def key(self):
        return (P.key(self.n), P.key(self.d))

    def akey(self):
        """Key that identifies expressions equal up to rounding (1e-12)."""
        return (_rkey(self.n), _rkey(self.d))

    def atoms(self):
        return P.atoms(self.n) | P.atoms(self.d)

    def evalf(self, env):
        return P.evalf(self.n, env) / P.evalf(self.d, env)

    def same(self, o):
        """Identical as rational functions."""
        if P.key(self.d) == P.key(o.d):
            return P.key(self.n) == P.key(o.n)
        return not P.sub(P.mul(self.n, o.d), P.mul(o.n, self.d))

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_nonfinite(o):
            return _nonfinite(self, o, 'add')
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if not o.n:
            return self
        if not self.n:
            return o
        if self.d == o.d:
            n = P.add(self.n, o.n)
            if P.is_const(self.d):
                return SymReal(n, self.d)
            return SymReal(*norm_nd(n, self.d))
        # common denominator using monomial gcd
        if P.is_const(self.d):
            n = P.add(P.mul(self.n, o.d), o.n)
            return SymReal(*norm_nd(n, o.d))
        if P.is_const(o.d):
            n = P.add(self.n, P.mul(o.n, self.d))
            return SymReal(*norm_nd(n, self.d))
        q = P.exact_div(self.d, o.d) if len(self.d) < 60 else None
        if q is not None:
            return SymReal(*norm_nd(P.add(self.n, P.mul(o.n, q)), self.d))
        q = P.exact_div(o.d, self.d) if len(o.d) < 60 else None
        if q is not None:
            return SymReal(*norm_nd(P.add(P.mul(self.n, q), o.n), o.d))
        g = P.gcd_mono2(P.mono_gcd(self.d), P.mono_gcd(o.d))
        d1, d2 = P.div_mono(self.d, g), P.div_mono(o.d, g)
        n = P.add(P.mul(self.n, d2), P.mul(o.n, d1))
        return SymReal(*norm_nd(n, P.mul(self.d, d2)))

    __radd__ = __add__

    def __neg__(self):
        return SymReal(P.neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_nonfinite(o):
            return _nonfinite(self, o, 'sub')
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if _is_nonfinite(o):
            return _nonfinite(self, o, 'rsub')
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_nonfinite(o):
            return _nonfinite(self, o, 'mul')
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if not self.n or not o.n:
            return ZERO
        c1, c2 = P.is_const(self.d), P.is_const(o.d)
        if c1 and c2:
            return SymReal(CTX.reduce(P.mul(self.n, o.n)))
        n1, d2 = norm_nd(self.n, o.d) if not c2 else (self.n, o.d)
        n2, d1 = norm_nd(o.n, self.d) if not c1 else (o.n, self.d)
        return SymReal(
            *norm_nd(CTX.reduce(P.mul(n1, n2)), CTX.reduce(P.mul(d1, d2)))
        )

    __rmul__ = __mul__

    def inv(self):
        if self.is_const():
            c = self.const()
            if c == 0:
                raise ZeroDivisionError('float division by zero')
            return SymReal(P.const(1 / c))
        if CTX.decide(self._cmp0('eq0')):
            raise ZeroDivisionError('float division by zero')
        return SymReal(*norm_nd(self.d, self.n))

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_nonfinite(o):
            return _nonfinite(self, o, 'div')
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return self * o.inv()

    def __rtruediv__(self, o):
        if _is_nonfinite(o):
            return _nonfinite(self, o, 'rdiv')
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __pow__(self, e, mod=None):
        if isinstance(e, np.ndarray) and e.ndim:
            return NotImplemented
        if SymReal.lift(e) is None:
            return NotImplemented
        return s_pow(self, e)

    def __rpow__(self, b):
        return s_pow(SymReal.lift(b), self)

    def __floordiv__(self, o):
        return s_floor(self / o)

    def __rfloordiv__(self, o):
        return s_floor(o / self)

    def __mod__(self, o):
        return self - SymReal.lift(o) * s_floor(self / o)

    def __rmod__(self, o):
        return SymReal.lift(o) - self * s_floor(o / self)

    def __divmod__(self, o):
        q = s_floor(self / o)
        return q, self - q * o

    def __abs__(self):
        return s_abs(self)

    fabs = __abs__

    # -- comparisons
    def _cmp0(self, op):
        """self (op) 0 as a SymBool / bool."""
        n, d = self.n, self.d
        if P.is_const(d):
            if P.const_val(d) < 0:
                n = P.neg(n)
            return _leaf(op, n)
        if op == 'eq0':
            return _leaf(op, n)
        s = CTX.sign(d)
        if s == 0:
            return _leaf(op, P.mul(n, d))
        return _leaf(op, n if s > 0 else P.neg(n))

    def __lt__(self, o):
        o2 = SymReal.lift(o)
        if o2 is None:
            return _cmp_special(self, o, 'lt')
        return (self - o2)._cmp0('lt0')

    def __le__(self, o):
        o2 = SymReal.lift_or_none_special(o)
        if o2 is None:
            return _cmp_special(self, o, 'le')
        return (self - o2)._cmp0('le0')

    def __gt__(self, o):
        o2 = SymReal.lift_or_none_special(o)
        if o2 is None:
            return _cmp_special(self, o, 'gt')
        return (o2 - self)._cmp0('lt0')

    def __ge__(self, o):
        o2 = SymReal.lift_or_none_special(o)
        if o2 is None:
            return _cmp_special(self, o, 'ge')
        return (o2 - self)._cmp0('le0')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        o2 = SymReal.lift_or_none_special(o)
        if o2 is None:
            return _cmp_special(self, o, 'eq')
        return (self - o2)._cmp0('eq0')

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)

    @staticmethod
    def lift_or_none_special(o):
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return None
        return SymReal.lift(o)

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return CTX.decide(b_not(self._cmp0('eq0')))

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.const())
        return CTX.concretise(self)

    def __int__(self):
        return int_part(self)

    def __trunc__(self):
        return int_part(self)

    def __floor__(self):
        return s_floor_int(self)

    def __ceil__(self):
        return -s_floor_int(-self)

    def __round__(self, nd=None):
        return s_round(self, nd)

    def __format__(self, spec):
        if FORMATTED is not None:
            FORMATTED.append((self, spec))
            return f'<fmt:{len(FORMATTED) - 1}>'
        return f'<sym:{self.short()}>'

    def __repr__(self):
        return self.__format__('')

    __str__ = __repr__

    def short(self):
        return f'{len(self.n)}/{len(self.d)}'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # -- numpy object ufunc hooks
    def sqrt(self):
        return s_root(self, 2, np_mode=True)

    def cbrt(self):
        return s_root(self, 3, np_mode=True)

    def square(self):
        return self * self

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def log10(self):
        return s_log10(self)

    def log1p(self):
        return s_log(self + 1)

    def sin(self):
        return s_trig(self)[1]

    def cos(self):
        return s_trig(self)[0]

    def tan(self):
        # the cosine of a floating point angle is never exactly zero
        c, s = s_trig(self)
        if not c.is_const():
            CTX.assume(b_not(c._cmp0('eq0')))
        return s / c

    def arctan(self):
        return s_atan2(self, ONE_)

    def arctan2(self, o):
        return s_atan2(self, SymReal.lift(o))

    def arccos(self):
        return s_acos(self)

    def arcsin(self):
        return s_asin(self)

    def tanh(self):
        e = s_exp(2 * self)
        return (e - 1) / (e + 1)

    def sinh(self):
        e = s_exp(self)
        return (e - 1 / e) / 2

    def cosh(self):
        e = s_exp(self)
        return (e + 1 / e) / 2

    def hypot(self, o):
        o = SymReal.lift(o)
        return s_root(self * self + o * o, 2)

    def floor(self):
        return SymReal.lift(s_floor_int(self))

    def ceil(self):
        return SymReal.lift(-s_floor_int(-self))

    def trunc(self):
        return SymReal.lift(int_part(self))

    def rint(self):
        return s_round(self, None)

    def degrees(self):
        return self * to_frac(180 / math.pi)

    rad2deg = degrees

    def radians(self):
        return self * PI / 180

    deg2rad = radians

    def conjugate(self):
        return self

    def sign(self):
        if self > 0:
            return 1.0
        if self < 0:
            return -1.0
        return 0.0

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    def is_integer(self):
        return bool(self == s_floor_int(self))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def tolist(self):
        return self

    # scalar numpy-like attributes (np.float64 has them)
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def max(self, *a, **k):
        return self

    min = max
    sum = max

    def any(self, *a, **k):
        return bool(self)

    all = any

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = s_max(r, lo)
        if hi is not None:
            r = s_min(r, hi)
        return r

    def round(self, nd=0, **k):
        return s_round(self, nd)


numbers.Real.register(SymReal)
numbers.Number.register(SymReal)

ZERO = SymReal({})
ONE_ = SymReal(P.const(1))
PI = to_frac(math.pi)


def _round_leaf(op, n):
    """v + k (op) 0 with v a rounded value: exact in the unrounded one."""
    ms = [m for m in n if m != P.ONE]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    at = CTX.atom_table[ms[0][0][0]]
    if at.kind != 'round':
        return None
    c = n[ms[0]]
    g = -n.get(P.ONE, P.F0) / c
    st = Fraction(1, 10**at.extra) if at.extra >= 0 else Fraction(
        10 ** (-at.extra)
    )
    q = g / st
    x, h = at.args[0], st / 2
    fl, on = q.numerator // q.denominator, q.denominator == 1
    if op == 'eq0':
        if not on:
            return False
        return b_and(x > g - h, x < g + h)
    if c > 0:  # v < g or v <= g
        top = fl - 1 if (on and op == 'lt0') else fl
        return x < top * st + h
    bot = fl + 1 if (not on or op == 'lt0') else fl
    return x > bot * st - h


def _leaf(op, n):
    if P.is_const(n):
        c = P.const_val(n)
        return c < 0 if op == 'lt0' else c <= 0 if op == 'le0' else c == 0
    if CTX.has_round and len(n) <= 2:
        r = _round_leaf(op, n)
        if r is not None:
            return r
    # normalise scale (positive factor), gives better caching
    c = n[P.lead(n)]
    if op == 'eq0':
        n = P.scale(n, 1 / c)
    elif abs(c) != 1:
        n = P.scale(n, 1 / abs(c))
    return SymBool(op, n)


def _cmp_special(a, o, op):
    if isinstance(o, (float, np.floating)):
        o = float(o)
        if math.isnan(o):
            return False
        if math.isinf(o):
            if op in ('lt', 'le'):
                return o > 0
            if op in ('gt', 'ge'):
                return o < 0
            return False
    return NotImplemented


def _lt(self, o):
    o2 = SymReal.lift_or_none_special(o)
    if o2 is None:
        return _cmp_special(self, o, 'lt')
    return (self - o2)._cmp0('lt0')


SymReal.__lt__ = _lt


# --------------------------------------------------------------------------
# Functions on values


class Poison:
    """A complex or nan value: may be discarded, never used."""

    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def _same(self, *a):
        return self

    def _use(self, *a):
        raise Unsupported(self.why)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _same
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = _same
    __pos__ = _same
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _use
    __float__ = __int__ = __bool__ = __abs__ = _use
    __hash__ = None


def S(x):
    return SymReal.lift(x)


def s_root(x, q, np_mode=False, pyop=False, trust=False):
    """Principal q-th root of x; trust: x is known not to be negative."""
    x = S(x)
    if x.is_const():
        c = x.const()
        if c < 0:
            if np_mode:
                raise Unsupported('nan: root of a negative number')
            if pyop:
                raise Unsupported('complex: root of a negative number')
            raise ValueError('math domain error')
        # exact when both are perfect powers
        try:
            rn = round(c.numerator ** (1.0 / q))
            rd = round(c.denominator ** (1.0 / q))
        except OverflowError:
            return S(Fraction(float(c) ** (1.0 / q)))
        if rn**q == c.numerator and rd**q == c.denominator:
            return S(Fraction(rn, rd))
        return S(Fraction(float(c) ** (1.0 / q)))
    if not trust and CTX.decide(x < 0):
        if np_mode:
            raise Unsupported('nan: root of a negative number')
        if pyop:
            raise Unsupported('complex: root of a negative number')
        raise ValueError('math domain error')
    ex = _as_exp(x)
    if ex is not None and ex[0] > 0:
        return s_root(S(ex[0]), q) * s_exp(ex[1] / q)
    # pull positive constant content out so that sqrt(4x) == 2 sqrt(x)
    n, d = x.n, x.d
    # perfect power monomials
    if len(n) == 1 and len(d) == 1:
        (mn, cn), = n.items()
        (md, cd), = d.items()
        out = ONE_
        restn, restd = [], []
        for m, rest, inv in ((mn, restn, False), (md, restd, True)):
            for i, e in m:
                k, r = divmod(e, q)
                at = CTX.atom_table[i]
                if k and (k * (1) % 1 == 0):
                    lo, hi = CTX.abounds(i)
                    base = SymReal(P.var(i))
                    if lo >= 0:
                        pass
                    elif q % 2 == 0 and k % 2 == 1:
                        base = s_abs(base)
                    f = base
                    for _ in range(k - 1):
                        f = f * base
                    out = out / f if inv else out * f
                if r:
                    rest.append((i, r))
                del at
        if out is not ONE_:
            x2 = SymReal(
                {tuple(restn): cn}, {tuple(restd): cd}
            )
            x2 = SymReal(*norm_nd(x2.n, x2.d))
            return out * s_root(x2, q, np_mode, pyop, trust)
    return CTX.root_atom(x, q)


def s_pow(x, e, math_mode=False):
    """x ** e."""
    x, e = S(x), S(e)
    if e.is_const():
        k = e.const()
        if k.denominator == 1:
            k = int(k)
            if k == 0:
                return ONE_
            if x.is_const():
                if k < 0 and x.const() == 0:
                    raise ZeroDivisionError(
                        '0.0 cannot be raised to a negative power'
                    )
                return S(x.const() ** k)
            if abs(k) > 40:
                raise Unsupported('large power')
            b = x if k > 0 else x.inv()
            r = b
            for _ in range(abs(k) - 1):
                r = r * b
            return r
        if x.is_const():
            c = float(x.const())
            if c < 0:
                if math_mode:
                    raise ValueError('math domain error')
                raise Unsupported('complex power')
            if c == 0 and k < 0:
                raise ZeroDivisionError('0.0 to a negative power')
            if k.denominator in (2, 3, 4):
                r = s_root(x, k.denominator)
                if r.const().denominator < 10**9:
                    return s_pow(r, k.numerator)
            return S(Fraction(c ** float(k)))
        ex = _as_exp(x)
        if ex is not None and ex[0] > 0:
            return S(Fraction(float(ex[0]) ** float(k))) * s_exp(ex[1] * k)
        if k.denominator in (2, 3, 4):
            r = s_root(x, k.denominator, pyop=not math_mode)
            return s_pow(r, k.numerator)
        if CTX.decide(x < 0):
            if math_mode:
                raise ValueError('math domain error')
            return Poison('complex: power of a negative number')
        if CTX.decide(x == 0):
            if k < 0:
                raise ZeroDivisionError('0.0 to a negative power')
            return ZERO
        fl = k.numerator // k.denominator
        fr = k - fl
        r = CTX.fn_atom('pow', x, extra=fr)
        return r * s_pow(x, fl) if fl else r
    # symbolic exponent
    if x.is_const() and x.const() == 1:
        return ONE_
    if CTX.decide(x < 0):
        if math_mode:
            raise ValueError('math domain error')
        return Poison('complex: power of a negative number')
    if CTX.decide(x == 0):
        if CTX.decide(e > 0):
            return ZERO
        if CTX.decide(e == 0):
            return ONE_
        raise ZeroDivisionError('0.0 to a negative power')
    return s_exp(e * s_log(x))


def _as_exp(x):
    """(c, y) when x == c*exp(y) with one exp atom, else None."""
    if len(x.n) != 1 or len(x.d) != 1:
        return None
    (mn, cn), = x.n.items()
    (md, cd), = x.d.items()
    y = ZERO
    for m, sg in ((mn, 1), (md, -1)):
        for i, e in m:
            at = CTX.atom_table[i]
            if at.fn != 'exp':
                return None
            y = y + at.args[0] * (sg * e)
    return cn / cd, y


def _exp_atom(r):
    """exp(r), r without constant term, positive leading coefficient."""
    if not P.is_const(r.d):
        return CTX.fn_atom('exp', r)
    c = r.n[P.lead(r.n)]
    dk = P.key(P.scale(r.n, 1 / c))
    units = CTX.exp_units.setdefault(dk, [])
    for u in units:
        k = c / u
        kk = round(k)
        if kk and abs(k - kk) < 1e-13 and k < 6.5:
            return s_pow(CTX.fn_atom('exp', SymReal(P.scale(r.n, u / c))),
                         kk)
    units.append(c)
    return CTX.fn_atom('exp', r)


def s_exp(x):
    x = S(x)
    if x.is_const():
        c = x.const()
        if c == 0:
            return ONE_
        return S(Fraction(math.exp(float(c))))
    # pull integer multiples of logs out: exp(k*log(y)+r) = y**k * exp(r)
    if P.is_const(x.d):
        dc = P.const_val(x.d)
        out = ONE_
        rest = {}
        for m, c in x.n.items():
            c = c / dc
            if len(m) == 1 and m[0][1] == 1:
                at = CTX.atom_table[m[0][0]]
                if at.kind == 'fn' and at.fn == 'log':
                    k = int(c) if c.denominator == 1 else None
                    if k is not None:
                        out = out * s_pow(at.args[0], k)
                        continue
            rest[m] = c
        if not rest:
            return out
        # split the constant
        c0 = rest.pop(P.ONE, None)
        if c0:
            out = out * S(Fraction(math.exp(float(c0))))
        if not rest:
            return out
        r = SymReal(rest)
        # sign canonical: exp(-y) = 1/exp(y)
        if rest[P.lead(rest)] < 0:
            return out / _exp_atom(-r)
        return out * _exp_atom(r)
    if x.n[P.lead(x.n)] < 0:
        return ONE_ / CTX.fn_atom('exp', -x)
    return CTX.fn_atom('exp', x)


def s_log(x):
    x = S(x)
    if x.is_const():
        c = x.const()
        if c <= 0:
            raise ValueError('math domain error')
        return S(Fraction(math.log(float(c)))) if c != 1 else ZERO
    if CTX.decide(x <= 0):
        raise ValueError('math domain error')
    if len(x.n) == 1 and P.is_const(x.d):
        (m, c), = x.n.items()
        if len(m) == 1 and m[0][1] == 1:
            at = CTX.atom_table[m[0][0]]
            if at.kind == 'fn' and at.fn == 'exp':
                return at.args[0] + s_log(S(c / P.const_val(x.d)))
    return CTX.fn_atom('log', x)


def _const_trig(c):
    cc, ss = math.cos(c), math.sin(c)

    for u, v in (
        (1, 0), (0, 1), (-1, 0), (0, -1),
    ):
        if abs(cc - u) < 4e-15 and abs(ss - v) < 4e-15:
            return S(u), S(v)
    for v in (cc, ss):
        # a multiple of 30 degrees: keep the rational coordinate exact
        if abs(abs(v) - 0.5) < 4e-15:
            def snap(w):
                return Fraction(round(2 * w), 2) if abs(
                    abs(w) - 0.5
                ) < 4e-15 else Fraction(w)

            return S(snap(cc)), S(snap(ss))
    # a rational point of the unit circle next to the angle
    sw = abs(ss) > abs(cc)
    a, b = (ss, cc) if sw else (cc, ss)
    sg = 1 if a > 0 else -1
    t = Fraction(b / (abs(a) + 1)).limit_denominator(10**9)
    a, b = sg * (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    return (S(b), S(a)) if sw else (S(a), S(b))


def s_trig(x):
    """(cos x, sin x), expanded over base angles."""
    x = S(x)
    if x.is_const():
        return _const_trig(float(x.const()))
    if not P.is_const(x.d):
        terms = [(x, 1)]
        c0 = Fraction(0)
    else:
        dc = P.const_val(x.d)
        terms = []
        c0 = Fraction(0)
        for m, c in sorted(x.n.items()):
            c = c / dc
            if m == P.ONE:
                c0 = c
            else:
                terms.append((SymReal({m: c}), m))
    C, Sn = (ONE_, ZERO) if not c0 else _const_trig(float(c0))
    for t, m in terms:
        c1, s1 = _trig_term(t, m)
        C, Sn = C * c1 - Sn * s1, Sn * c1 + C * s1
    return C, Sn


def _trig_term(t, m):
    if m == 1:
        base, k = t, 1
        if P.lead(t.n) and t.n[P.lead(t.n)] < 0:
            base, k = -t, -1
        c, s = CTX.trig_atoms(base)
        return (c, s) if k == 1 else (c, -s)
    (mm, coef), = t.n.items()
    if len(mm) == 1 and mm[0][1] == 1:
        at = CTX.atom_table[mm[0][0]]
        if at.kind == 'angle':
            u = Fraction(1)
            k = coef
            if k.denominator == 1 and abs(k) <= 6:
                return _multi(at.extra[0], at.extra[1], int(k))
    units = CTX.angle_units.setdefault(mm, [])
    for u in units:
        k = coef / u
        kk = round(k)
        if kk and abs(k - kk) < 1e-13 and abs(kk) <= 6:
            k = kk
            c, s = CTX.trig_atoms(SymReal({mm: u}))
            return _multi(c, s, int(k))
    u = abs(coef)
    units.append(u)
    c, s = CTX.trig_atoms(SymReal({mm: u}))
    return (c, s) if coef > 0 else (c, -s)


def _multi(c, s, k):
    neg = k < 0
    C, Sn = ONE_, ZERO
    for _ in range(abs(k)):
        C, Sn = C * c - Sn * s, Sn * c + C * s
    return (C, -Sn) if neg else (C, Sn)


def s_atan2(y, x):
    y, x = S(y), S(x)
    if y.is_const() and x.is_const():
        return S(Fraction(math.atan2(float(y.const()), float(x.const()))))
    if y.is_const() and y.const() == 0:
        if CTX.decide(x < 0):
            return S(PI)
        return ZERO
    if x.is_const() and x.const() == 0:
        if CTX.decide(y > 0):
            return S(PI / 2)
        if CTX.decide(y < 0):
            return S(-PI / 2)
        return ZERO
    if CTX.decide(b_and(y == 0, x == 0)):
        return ZERO
    r = s_root(x * x + y * y, 2)
    c, s = x / r, y / r
    return CTX.angle_atom(c, s, -PI, PI)


def s_acos(x):
    x = S(x)
    if x.is_const():
        return S(Fraction(math.acos(float(x.const()))))
    y = unit_partner(x)
    if y is not None:
        return CTX.angle_atom(x, s_abs(y), Fraction(0), PI)
    if CTX.decide(b_or(x > 1, x < -1)):
        raise ValueError('math domain error')
    return CTX.angle_atom(x, s_root(1 - x * x, 2), Fraction(0), PI)


def unit_partner(x):
    """y when (x, y) or (-x, y) is a known unit vector."""
    for a, b in CTX.units:
        if x.same(a) or x.same(-a):
            return b
    return None


def s_asin(x):
    x = S(x)
    if x.is_const():
        return S(Fraction(math.asin(float(x.const()))))
    if CTX.decide(b_or(x > 1, x < -1)):
        raise ValueError('math domain error')
    return CTX.angle_atom(s_root(1 - x * x, 2), x, -PI / 2, PI / 2)


def s_sel(fn, a, b):
    for u, v in ((a, b), (b, a)):
        if _is_nonfinite(u):
            if u != u:
                raise Unsupported('nan in min or max')
            return u if (u > 0) == (fn == 'max') else v
    a, b = S(a), S(b)
    for u, v in ((a, b), (b, a)):
        # component of a unit vector
        if u.is_const() and abs(u.const()) >= 1 and (
            unit_partner(v) is not None
        ):
            return u if (u.const() > 0) == (fn == 'max') else v
    d = a - b
    if d.is_const():
        c = d.const()
        return (a if c >= 0 else b) if fn == 'max' else (a if c <= 0 else b)
    le = d._cmp0('le0')  # a <= b
    v = CTX.quick(le)
    if v is not None:
        if fn == 'max':
            return b if v else a
        return a if v else b
    return CTX.sel_atom(fn, a, b)


def s_max(a, b):
    return s_sel('max', a, b)


def s_min(a, b):
    return s_sel('min', a, b)


def s_abs(x):
    x = S(x)
    if x.is_const():
        return S(abs(x.const()))
    y = unit_partner(x) if CTX.units else None
    r = _s_abs(x)
    if y is not None and not r.is_const():
        CTX.units.append((r, y))
    return r


def _s_abs(x):
    v = CTX.quick(x._cmp0('le0'))
    if v is True:
        return -x
    v = CTX.quick((-x)._cmp0('le0'))
    if v is True:
        return x
    if not P.is_const(x.d):
        n, d = SymReal(x.n), SymReal(x.d)
        if CTX.quick(d > 0) is True:
            return s_abs(n) / d
        if CTX.quick(d < 0) is True:
            return s_abs(n) / -d
    if x.n[P.lead(x.n)] < 0:
        x = -x
    return s_sel('max', x, -x)


class Log10(SymReal):
    """log10(arg), whose integer part is decided on the argument."""

    __slots__ = ('arg',)


def s_log10(x):
    x = S(x)
    v = s_log(x) / Fraction(math.log(10))
    if v.is_const():
        return v
    r = Log10(v.n, v.d)
    r.arg = x
    return r


def s_floor_int(x):
    """Python int floor(x): forks over the feasible integers."""
    x = S(x)
    if isinstance(x, Log10):
        lo, hi = CTX.ival(x.arg)
        if 0 < lo and hi < INF:
            k = math.floor(math.log10(lo)) - 1
            while k < math.log10(hi) + 1:
                if bool(x.arg < Fraction(10) ** (k + 1)):
                    return k
                k += 1
    if x.is_const():
        return math.floor(x.const())
    return CTX.fork_int(x)


def s_floor(x):
    return S(s_floor_int(x))


def int_part(x):
    x = S(x)
    if x.is_const():
        return int(x.const())
    if CTX.decide(x >= 0):
        return s_floor_int(x)
    return -s_floor_int(-x)


def s_round(x, nd=None):
    x = S(x)
    if x.is_const():
        r = round(x.const(), nd) if nd is not None else round(x.const())
        return r if nd is None else S(r)
    if nd is None:
        # nearest integer (ties excluded from claims)
        return s_floor_int(x + Fraction(1, 2))
    return CTX.round_atom(x, int(nd))


# --------------------------------------------------------------------------
# Context


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.quick = 0
        self.concretised = 0
        self.unknown_branches = 0

    def as_dict(self):
        return dict(self.__dict__)


class SymCtx:
    """State of the symbolic exploration of one harness."""

    symbolic = True
    has_round = False

    def __init__(self, name, timeout_ms=6000, deadline=None, seed=1):
        self.name = name
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.seed = seed
        self.stats = Stats()
        self.atom_table = []
        self.atom_by_key = {}
        self.inputs = {}  # name -> atom id or choice info
        self.angle_units = {}
        self.exp_units = {}
        self._z3cache = {}
        self.lemmas = []  # global refinement lemmas (SymBool, atoms)
        self.check_cache = {}
        self.reductions = {}  # atom id -> (q, base poly) for r**q -> base
        self.start_path([])

    # -- path handling
    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.forks = []  # positions in trace with an open alternative
        self.pc = []
        self.pc_keys = {}
        self.pbounds = {}
        self.bver = 0
        self._bcache = {}
        self.choices = {}
        self.inputs = {}
        self.path_concretised = False
        self.units = []
        self.model_env = None
        self.occ = {}
        self.outputs = []

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded()

    # -- atoms
    def new_atom(self, name, kind, fn=None, args=(), extra=None):
        a = Atom(len(self.atom_table), name, kind, fn, args, extra)
        self.atom_table.append(a)
        return a

    def real(self, name, lo=None, hi=None):
        """An input: any real in [lo, hi]."""
        k = ('in', name, lo, hi)
        i = self.atom_by_key.get(k)
        if i is None:
            a = self.new_atom(name, 'input')
            a.lo = -INF if lo is None else to_frac(lo)
            a.hi = INF if hi is None else to_frac(hi)
            i = a.id
            self.atom_by_key[k] = i
        self.inputs[name] = i
        return SymReal(P.var(i))

    def _lookup(self, key, fn, args, extra):
        i = self.atom_by_key.get(key)
        if i is not None:
            return i
        # same rational function in different clothes
        if any(not P.is_const(a.d) for a in args):
            for at in self.atom_table:
                if (
                    at.fn == fn and at.extra == extra
                    and len(at.args) == len(args)
                    and all(x.same(y) for x, y in zip(at.args, args))
                ):
                    self.atom_by_key[key] = at.id
                    return at.id
        return None

    def root_atom(self, x, q):
        key = ('root', q, x.akey())
        i = self._lookup(key, 'root', (x,), q)
        if i is None:
            a = self.new_atom(f'root{q}', 'root', 'root', (x,), q)
            a.lo = Fraction(0)
            i = a.id
            self.atom_by_key[key] = i
            if P.is_const(x.d):
                self.reductions[i] = (
                    q, P.scale(x.n, 1 / P.const_val(x.d))
                )
        return SymReal(P.var(i))

    def reduce(self, p):
        """Rewrite r**q -> base for root atoms with polynomial base."""
        if not self.reductions:
            return p
        red = self.reductions
        again = True
        while again:
            again = False
            for m in p:
                if any(i in red and e >= red[i][0] for i, e in m):
                    again = True
                    break
            if not again:
                return p
            out = {}
            for m, c in p.items():
                t = {P.ONE: c}
                rest = []
                for i, e in m:
                    if i in red and e >= red[i][0]:
                        q, b = red[i]
                        t = P.mul(t, P.power(b, e // q))
                        if e % q:
                            rest.append((i, e % q))
                    else:
                        rest.append((i, e))
                out = P.add(out, P.mul(t, {tuple(rest): P.F1}))
            p = out
        return p

    def fn_atom(self, fn, x, extra=None):
        key = (fn, extra, x.akey())
        i = self._lookup(key, fn, (x,), extra)
        if i is None:
            a = self.new_atom(fn, 'fn', fn, (x,), extra)
            if fn in ('exp', 'pow'):
                a.lo = Fraction(0)
            i = a.id
            self.atom_by_key[key] = i
        return SymReal(P.var(i))

    def trig_atoms(self, x):
        """cos and sin atoms of the angle x."""
        key = ('cossin', x.akey())
        r = self.atom_by_key.get(key)
        if r is None:
            a = self.new_atom('cos', 'fn', 'cos', (x,))
            b = self.new_atom('sin', 'fn', 'sin', (x,))
            a.lo = b.lo = Fraction(-1)
            a.hi = b.hi = Fraction(1)
            a.extra = None
            # sin^2 -> 1 - cos^2
            self.reductions[b.id] = (
                2, P.sub(P.const(1), P.mul(P.var(a.id), P.var(a.id)))
            )
            b.extra = a.id
            r = (a.id, b.id)
            self.atom_by_key[key] = r
        return SymReal(P.var(r[0])), SymReal(P.var(r[1]))

    def angle_atom(self, c, s, lo, hi):
        """An angle known through its cosine and sine."""
        key = ('angle', c.akey(), s.akey())
        i = self.atom_by_key.get(key)
        if i is None:
            a = self.new_atom('angle', 'angle', 'angle', (c, s), (c, s))
            a.lo, a.hi = lo, hi
            i = a.id
            self.atom_by_key[key] = i
        return SymReal(P.var(i))

    def sel_atom(self, fn, a, b):
        ka, kb = a.akey(), b.akey()
        if kb < ka:
            a, b, ka, kb = b, a, kb, ka
        key = (fn, ka, kb)
        i = self.atom_by_key.get(key)
        if i is None:
            at = self.new_atom(fn, 'sel', fn, (a, b))
            i = at.id
            self.atom_by_key[key] = i
        return SymReal(P.var(i))

    def round_atom(self, x, nd):
        key = ('round', nd, x.key())
        i = self.atom_by_key.get(key)
        if i is None:
            at = self.new_atom('round', 'round', 'round', (x,), nd)
            self.has_round = True
            i = at.id
            self.atom_by_key[key] = i
        return SymReal(P.var(i))

    def fresh(self, name, lo=None, hi=None):
        """Fresh unconstrained value, not an input (stub result)."""
        return self.real(name, lo, hi)

    # -- intervals
    def abounds(self, i):
        c = self._bcache.get(i)
        if c is not None:
            return c
        at = self.atom_table[i]
        lo, hi = float(at.lo), float(at.hi)
        if at.kind != 'input':
            l2, h2 = self._derived_bounds(at)
            lo, hi = max(lo, l2), min(hi, h2)
        pb = self.pbounds.get(i)
        if pb:
            lo, hi = max(lo, pb[0]), min(hi, pb[1])
        self._bcache[i] = (lo, hi)
        return lo, hi

    def _derived_bounds(self, at):
        fn = at.fn
        try:
            if fn == 'root':
                l, h = self.ival(at.args[0])
                q = at.extra
                return (
                    max(l, 0.0) ** (1 / q) * (1 - 1e-12),
                    (max(h, 0.0) ** (1 / q)) * (1 + 1e-12),
                )
            if fn == 'exp':
                l, h = self.ival(at.args[0])
                lo = math.exp(l) * (1 - 1e-12) if l < 700 else 1e300
                hi = math.exp(h) * (1 + 1e-12) if h < 700 else INF
                return lo, hi
            if fn == 'log':
                l, h = self.ival(at.args[0])
                lo = math.log(l) if l > 0 else -INF
                hi = math.log(h) if 0 < h < INF else INF
                return lo - 1e-12 * abs(lo) if lo > -INF else lo, (
                    hi + 1e-12 * abs(hi) if hi < INF else hi
                )
            if fn == 'pow':
                l, h = self.ival(at.args[0])
                e = float(at.extra)
                l, h = max(l, 0.0), max(h, 0.0)
                return (l**e) * (1 - 1e-12), (h**e) * (1 + 1e-12)
            if fn in ('max', 'min'):
                a, b = self.ival(at.args[0]), self.ival(at.args[1])
                f = max if fn == 'max' else min
                return f(a[0], b[0]), f(a[1], b[1])
        except (OverflowError, ValueError):
            pass
        return -INF, INF

    def pival(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            c = float(c)
            l = h = c
            for i, e in m:
                al, ah = self.abounds(i)
                if e % 2 == 0 and al < 0:
                    if ah <= 0:
                        bl, bh = ah**e, _p(al, e)
                    else:
                        bl, bh = 0.0, max(_p(al, e), _p(ah, e))
                else:
                    bl, bh = _p(al, e), _p(ah, e)
                l, h = _imul(l, h, bl, bh)
            lo += l - 1e-13 * abs(l) if l > -INF and l < INF else l
            hi += h + 1e-13 * abs(h) if h < INF and h > -INF else h
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
        return lo, hi

    def ival(self, x):
        n = self.pival(x.n)
        if P.is_const(x.d):
            return n
        d = self.pival(x.d)
        if d[0] <= 0 <= d[1]:
            return -INF, INF
        a, b = 1 / d[1], 1 / d[0]
        return _imul(n[0], n[1], a, b)

    def sign(self, p):
        lo, hi = self.pival(p)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        # products of known-sign factors are handled by the interval; a
        # denominator is never zero, so a non negative one is positive
        if lo >= 0:
            return 1
        if hi <= 0:
            return -1
        k = self.pc_keys.get(('lt0', P.key(_pscale1(P.neg(p)))))
        if k is True:
            return 1
        k = self.pc_keys.get(('lt0', P.key(_pscale1(p))))
        if k is True:
            return -1
        return 0

    def quick(self, b):
        """Decide by interval reasoning or cached literals; None if unsure."""
        if not isinstance(b, SymBool):
            return bool(b)
        if b.op in ('lt0', 'le0', 'eq0'):
            k = b.key()
            v = self.pc_keys.get(k)
            if v is not None:
                return v
            lo, hi = self.pival(b.a)
            if b.op == 'lt0':
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            elif b.op == 'le0':
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            else:
                if lo > 0 or hi < 0:
                    return False
            return None
        if b.op == 'not':
            v = self.quick(b.a[0])
            return None if v is None else not v
        vals = [self.quick(x) for x in b.a]
        if b.op == 'and':
            if any(v is False for v in vals):
                return False
            return True if all(v is True for v in vals) else None
        if any(v is True for v in vals):
            return True
        return False if all(v is False for v in vals) else None

    # -- adding facts
    def add_fact(self, b):
        if not isinstance(b, SymBool):
            if not b:
                raise PathAbort('false')
            return
        if b.op == 'and':
            for x in b.a:
                self.add_fact(x)
            return
        self.pc.append(b)
        self.model_env = (
            self.model_env
            if self.model_env is not None
            and b.evalf(self.model_env) is True
            else None
        )
        self.pc_keys[b.key()] = True
        if b.op in ('lt0', 'le0'):
            nk = b_not(b).key()
            self.pc_keys[nk] = False
            if b.op == 'lt0':
                # x<0 implies x<=0 and x!=0
                self.pc_keys[('le0', P.key(b.a))] = True
                self.pc_keys[('lt0', P.key(P.neg(b.a)))] = False
                self.pc_keys[('eq0', P.key(_pscale1s(b.a)))] = False
        elif b.op == 'not' and isinstance(b.a[0], SymBool):
            self.pc_keys[b.a[0].key()] = False
        elif b.op == 'eq0':
            self.pc_keys[('le0', P.key(_pscale1(b.a)))] = True
            self.pc_keys[('le0', P.key(_pscale1(P.neg(b.a))))] = True
            self.pc_keys[('lt0', P.key(_pscale1(b.a)))] = False
            self.pc_keys[('lt0', P.key(_pscale1(P.neg(b.a))))] = False
        self._tighten(b)

    def _tighten(self, b):
        if b.op not in ('lt0', 'le0', 'eq0'):
            return
        p = b.a
        if len(p) > 2 or P.degree(p) != 1:
            return
        ms = [m for m in p if m != P.ONE]
        if len(ms) != 1:
            return
        i = ms[0][0][0]
        c = p[ms[0]]
        k = -p.get(P.ONE, P.F0) / c
        v = float(k)
        lo, hi = self.pbounds.get(i, (-INF, INF))
        if b.op == 'eq0':
            lo, hi = max(lo, v), min(hi, v)
        elif c > 0:
            hi = min(hi, v)
        else:
            lo = max(lo, v)
        self.pbounds[i] = (lo, hi)
        self._bcache = {}

    def assume(self, b):
        """Restrict the path to b."""
        if not isinstance(b, SymBool):
            if not b:
                raise PathAbort('assumption false')
            return
        v = self.quick(b)
        if v is True:
            return
        if v is False:
            raise PathAbort('assumption false')
        k = len(self.trace)
        if k < len(self.prefix):
            self.trace.append(('a', None))
            self.add_fact(b)
            return
        self.trace.append(('a', None))
        r, _ = self.solve([b])
        if r == 'unsat':
            raise PathAbort('assumption infeasible')
        self.add_fact(b)

    # -- decisions
    def decide(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        v = self.quick(b)
        if v is not None:
            self.stats.quick += 1
            return v
        self.tick()
        k = len(self.trace)
        nb = b_not(b)
        if k < len(self.prefix):
            val = self.prefix[k][1]
            self.trace.append(self.prefix[k])
            self.add_fact(b if val else nb)
            return val
        self.stats.decisions += 1
        env = self.get_env()
        mv = b.evalf(env) if env is not None else None
        if mv is True:
            t_ok, f_ok = 'sat', None
        elif mv is False:
            t_ok, f_ok = None, 'sat'
        else:
            t_ok = f_ok = None
        if t_ok is None:
            t_ok, _ = self.solve([b])
        if t_ok == 'unsat':
            f_ok = f_ok or 'sat'
        if f_ok is None:
            f_ok, _ = self.solve([nb])
        if 'unknown' in (t_ok, f_ok):
            self.stats.unknown_branches += 1
        if t_ok != 'unsat' and f_ok != 'unsat':
            # explore the side of the current witness first
            val = True if mv is None else mv
            self.forks.append(k)
            self.trace.append(('f', val))
        elif t_ok != 'unsat':
            val = True
            self.trace.append(('d', val))
        elif f_ok != 'unsat':
            val = False
            self.trace.append(('d', val))
        else:
            raise PathAbort('infeasible')
        self.add_fact(b if val else nb)
        return val

    def implied(self, b):
        """Whether the path condition implies b (no fork)."""
        v = self.quick(b)
        if v is not None:
            return v
        k = len(self.trace)
        if k < len(self.prefix):
            val = self.prefix[k][1]
            self.trace.append(self.prefix[k])
        else:
            val = False
            env = self.get_env()
            if env is None or b.evalf(env) is not False:
                val = self.solve([b_not(b)])[0] == 'unsat'
            self.trace.append(('m', val))
        if val:
            self.add_fact(b)
        return val

    def fork_value(self, name, n):
        """Fork over range(n) without the solver (finite choice)."""
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k][1]
        else:
            v = 0
            if n > 1:
                self.forks.append(k)
        self.trace.append(('c', v, n))
        return v

    def choice(self, name, options):
        """A symbolic choice between finitely many options."""
        if name in self.choices:
            return self.choices[name][1]
        options = list(options)
        v = self.fork_value(name, len(options))
        self.choices[name] = (v, options[v])
        return options[v]

    def fork_int(self, x):
        """floor(x) as a python int, one path for each feasible value."""
        for _ in range(200):
            lo, hi = self.ival(x)
            env = self.get_env()
            g = None
            if env is not None:
                try:
                    g = math.floor(x.evalf(env))
                except (ZeroDivisionError, OverflowError, ValueError):
                    g = None
            if lo > -INF and hi < INF and math.floor(lo) == math.floor(hi):
                return math.floor(lo)
            k = len(self.trace)
            if k < len(self.prefix) and self.prefix[k][0] == 'i':
                g = self.prefix[k][1]
            elif g is None:
                r, env = self.solve([])
                if env is None:
                    raise Unsupported('no witness for an integer part')
                g = math.floor(x.evalf(env))
            self.trace.append(('i', g))
            if self.decide(b_and(x >= g, x < g + 1)):
                return g
        raise Unsupported('too many integer values')

    def concretise(self, x):
        """Pick one value of x (loses completeness; recorded)."""
        self.stats.concretised += 1
        first = not self.path_concretised
        self.path_concretised = True
        if first:
            # one value from each part of the range rather than one in all
            lo, hi = self.ival(x)
            if -INF < lo < hi < INF:
                for q in (1, 2, 3):
                    t = to_frac(round(lo + (hi - lo) * q / 4, 6))
                    if self.decide(x <= t):
                        break
        k = len(self.trace)
        if k < len(self.prefix):
            f = self.prefix[k][1]
            self.trace.append(self.prefix[k])
        else:
            env = self.get_env()
            if env is None:
                _, env = self.solve([])
            if env is None:
                raise Unsupported('no witness to concretise')
            f = to_frac(x.evalf(env))
            r, _ = self.solve([x == f])
            if r != 'sat':
                # accept a close value: pin it through its inputs
                for i in sorted(x.atoms()):
                    at = self.atom_table[i]
                    if at.kind == 'input':
                        self.pc_pin(i, env[i])
                self.trace.append(('k', f))
                return float(f)
            self.trace.append(('k', f))
        e = x == f
        if isinstance(e, SymBool):
            self.add_fact(e)
        return float(f)

    def pc_pin(self, i, v):
        e = SymReal(P.var(i)) == to_frac(v)
        if isinstance(e, SymBool):
            self.add_fact(e)

    # -- numeric environment
    def env_from_inputs(self, vals):
        """Float values for every atom, derived atoms by real functions."""
        env = {}
        for at in self.atom_table:
            try:
                if at.kind == 'input':
                    env[at.id] = float(vals[at.id])
                else:
                    env[at.id] = self._num(at, env)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                env[at.id] = math.nan
        return env

    def _num(self, at, env):
        a = [x.evalf(env) for x in at.args]
        fn = at.fn
        if fn == 'root':
            v = a[0]
            if v < 0:
                return math.nan
            if at.extra == 2:
                return math.sqrt(v)
            return v ** (1.0 / at.extra)
        if fn == 'exp':
            return math.exp(a[0])
        if fn == 'log':
            return math.log(a[0])
        if fn == 'pow':
            return a[0] ** float(at.extra)
        if fn == 'cos':
            return math.cos(a[0])
        if fn == 'sin':
            return math.sin(a[0])
        if fn == 'angle':
            v = math.atan2(a[1], a[0])
            return v
        if fn == 'max':
            return max(a)
        if fn == 'min':
            return min(a)
        if fn == 'round':
            return round(a[0], at.extra)
        if at.kind == 'uf':
            return at.extra['num'](*a)
        raise KeyError(fn)

    def default_inputs(self):
        vals = {}
        for at in self.atom_table:
            if at.kind == 'input':
                lo, hi = float(at.lo), float(at.hi)
                if lo > -INF and hi < INF:
                    fr = (0.4142 + 0.6180339887 * at.id) % 1
                    v = lo + (0.1 + 0.8 * fr) * (hi - lo)
                elif lo > -INF:
                    v = lo + 1.37
                elif hi < INF:
                    v = hi - 1.37
                else:
                    v = 0.731
                if getattr(self, 'digits', None) is not None:
                    v = round(v, self.digits)
                vals[at.id] = v
        return vals

    def get_env(self):
        """A witness of the path condition (true functions), or None."""
        if self.model_env is not None and len(self.model_env) >= len(
            self.atom_table
        ):
            return self.model_env
        vals = None
        if self.model_env is not None:
            vals = {
                at.id: self.model_env[at.id]
                for at in self.atom_table
                if at.kind == 'input' and at.id in self.model_env
            }
            d = self.default_inputs()
            for i, v in d.items():
                vals.setdefault(i, v)
        else:
            vals = self.default_inputs()
        env = self.env_from_inputs(vals)
        if all(b.evalf(env) is True for b in self.pc):
            self.model_env = env
            return env
        self.model_env = None
        return None

    # -- z3
    def z3poly(self, p):
        k = P.key(p)
        e = self._z3cache.get(k)
        if e is not None:
            return e
        terms = []
        for m, c in p.items():
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(str(c)))
            for i, ex in m:
                v = self.atom_table[i].z3v
                fs.extend([v] * ex)
            if len(fs) == 1:
                terms.append(fs[0])
            else:
                terms.append(z3.Product(*fs))
        e = (
            z3.RealVal(0)
            if not terms
            else terms[0]
            if len(terms) == 1
            else z3.Sum(*terms)
        )
        self._z3cache[k] = e
        return e

    def z3real_rel(self, a, op, b):
        """z3 formula a op b for SymReals (denominators multiplied out)."""
        return _bz3(op(a, b), self)

    def closure(self, ids):
        todo = list(ids)
        seen = set(todo)
        while todo:
            i = todo.pop()
            at = self.atom_table[i]
            more = set(at.deps)
            if at.kind == 'fn' and at.fn == 'sin':
                more.add(at.extra)
            if at.kind == 'fn' and at.fn == 'cos':
                more.add(i + 1)
            for j in more:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    def atom_defs(self, at):
        """Constraints that define a derived atom (SymBools)."""
        if at._defs is not None:
            return at._defs
        v = SymReal(P.var(at.id))
        out = []
        if at.fn == 'root':
            x = at.args[0]
            q = at.extra
            pw = {((at.id, q),): P.F1}
            out.append(_leaf('le0', P.neg(P.var(at.id))))
            out.append(_leaf('eq0', P.sub(P.mul(pw, x.d), x.n)))
        elif at.fn == 'exp':
            x = at.args[0]
            out.append(_leaf('lt0', P.neg(P.var(at.id))))
            out.append(b_implies(x > 0, v > 1 + x))
            out.append(b_implies(x < 0, b_and(v < 1, v > 1 + x)))
            out.append(b_implies(x == 0, v == 1))
        elif at.fn == 'log':
            x = at.args[0]
            out.append(b_implies(x == 1, v == 0))
            out.append(b_implies(x > 1, b_and(v > 0, v < x - 1)))
            out.append(b_implies(x < 1, b_and(v < 0, v < x - 1)))
        elif at.fn == 'pow':
            x = at.args[0]
            e = at.extra  # in (0,1)
            out.append(_leaf('lt0', P.neg(P.var(at.id))))
            out.append(b_implies(x == 1, v == 1))
            out.append(
                b_implies(x > 1, b_and(v > 1, v < 1 + e * (x - 1)))
            )
            out.append(
                b_implies(x < 1, b_and(v < 1, v > x))
            )
            out.append(v <= 1 + e * (x - 1))
            out.append(b_implies(x > 1, v < x))
        elif at.fn == 'sin':
            c = SymReal(P.var(at.extra))
            sn = P.var(at.id)
            out.append(
                _leaf(
                    'eq0',
                    P.sub(
                        P.add(
                            P.mul(sn, sn),
                            P.mul(P.var(at.extra), P.var(at.extra)),
                        ),
                        P.const(1),
                    ),
                )
            )
            x = at.args[0]
            lo, hi = self.ival_static(x)
            lo, hi = max(lo, -3.2), min(hi, 6.3)
            if lo < hi:
                out.extend(_trig_axioms(x, c, v, lo, hi))
        elif at.fn == 'angle':
            c, s = at.args
            pi = PI
            lo, hi = at.lo, at.hi
            out.append(v <= hi)
            out.append(v >= lo)
            out.append(b_implies(s > 0, b_and(v > 0, v < pi)))
            out.append(b_implies(s < 0, b_and(v < 0, v > -pi)))
            out.append(
                b_implies(c > 0, b_and(v > -pi / 2, v < pi / 2))
            )
            out.append(
                b_implies(c < 0, b_or(v > pi / 2, v < -pi / 2))
            )
            out.append(b_implies(b_and(s == 0, c > 0), v == 0))
        elif at.kind == 'sel':
            a, b = at.args
            if at.fn == 'max':
                out += [v >= a, v >= b, b_or(v == a, v == b)]
            else:
                out += [v <= a, v <= b, b_or(v == a, v == b)]
        elif at.fn == 'round':
            h = Fraction(1, 2 * 10**at.extra) if at.extra >= 0 else Fraction(
                10 ** (-at.extra), 2
            )
            out += [v - at.args[0] <= h, at.args[0] - v <= h]
        elif at.kind == 'uf' and at.extra.get('defs'):
            out += at.extra['defs'](v, *at.args)
        out = [b for b in out if isinstance(b, SymBool)]
        at._defs = out
        return out

    def ival_static(self, x):
        """Interval using declared bounds only (path independent)."""
        sv = (self.pbounds, self._bcache)
        self.pbounds, self._bcache = {}, {}
        try:
            return self.ival(x)
        finally:
            self.pbounds, self._bcache = sv

    def definitions(self, ids):
        """Definitional constraints (SymBools) for the atoms in ids."""
        out = []
        by_fn = {}
        for i in sorted(ids):
            at = self.atom_table[i]
            if at.kind == 'input':
                v = SymReal(P.var(i))
                if at.lo != -INF:
                    out.append(v >= at.lo)
                if at.hi != INF:
                    out.append(v <= at.hi)
            else:
                sv = (self.pbounds, self._bcache, self.pc_keys)
                self.pbounds, self._bcache, self.pc_keys = {}, {}, {}
                try:
                    out.extend(self.atom_defs(at))
                finally:
                    self.pbounds, self._bcache, self.pc_keys = sv
                if at.kind in ('fn', 'uf'):
                    by_fn.setdefault((at.fn, _xk(at)), []).append(at)
        sv = (self.pbounds, self._bcache, self.pc_keys)
        self.pbounds, self._bcache, self.pc_keys = {}, {}, {}
        try:
            for (fn, _), ats in by_fn.items():
                if len(ats) > 12:
                    ats = ats[:12]
                for k, a in enumerate(ats):
                    for b in ats[k + 1:]:
                        va, vb = SymReal(P.var(a.id)), SymReal(P.var(b.id))
                        if fn in ('exp', 'log', 'pow'):
                            x, y = a.args[0], b.args[0]
                            out.append(b_implies(x < y, va < vb))
                            out.append(b_implies(y < x, vb < va))
                            out.append(b_implies(x == y, va == vb))
                        elif fn in ('sin', 'cos'):
                            x, y = a.args[0], b.args[0]
                            out.append(b_implies(x == y, va == vb))
                        elif a.kind == 'uf':
                            eqs = [
                                x == y for x, y in zip(a.args, b.args)
                            ]
                            out.append(b_implies(b_and(*eqs), va == vb))
                            if a.extra.get('pair'):
                                out += a.extra['pair'](
                                    va, a.args, vb, b.args
                                )
        finally:
            self.pbounds, self._bcache, self.pc_keys = sv
        return [b for b in out if isinstance(b, SymBool)]

    def relevant(self, extra, use_all=False):
        """Path facts connected with the extra constraints."""
        ids = set()
        for b in extra:
            ids |= b.atoms()
        ids = self.closure(ids)
        facts = [(b, self.closure(b.atoms())) for b in self.pc]
        if use_all or not extra:
            for b, a in facts:
                ids |= a
            return self.pc[:], ids
        chosen = [False] * len(facts)
        again = True
        while again:
            again = False
            for k, (b, a) in enumerate(facts):
                if not chosen[k] and a & ids:
                    chosen[k] = True
                    if not a <= ids:
                        ids |= a
                        again = True
        return [b for k, (b, _) in enumerate(facts) if chosen[k]], ids

    def solve(self, extra, use_all=False, timeout=None):
        """Check pc and extra.  Returns (verdict, witness env or None)."""
        extra = [b for b in extra if b is not True]
        if any(b is False for b in extra):
            return 'unsat', None
        flat = []
        for b in extra:
            if isinstance(b, SymBool):
                flat.append(b)
            elif not b:
                return 'unsat', None
        self.tick()
        facts, ids = self.relevant(flat, use_all)
        cons = facts + flat + self.definitions(ids)
        ids2 = set()
        for lem in self.lemmas:
            la = lem.atoms()
            if la & ids:
                cons.append(lem)
                ids2 |= la
        s = z3.Solver()
        tmo = timeout or self.timeout_ms
        if self.deadline:
            tmo = int(
                max(200, min(tmo, (self.deadline - time.time()) * 1000))
            )
        s.set('timeout', tmo)
        s.set('random_seed', self.seed)
        for b in cons:
            s.add(_bz3(b, self))
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
            return 'unsat', None
        if r == z3.unknown:
            self.stats.unknown += 1
            return 'unknown', None
        self.stats.sat += 1
        m = s.model()
        vals = self.default_inputs()
        if self.model_env is not None:
            for i in list(vals):
                if i in self.model_env:
                    vals[i] = self.model_env[i]
        for i in ids:
            at = self.atom_table[i]
            if at.kind == 'input':
                vals[i] = _z3val(m, at.z3v, vals.get(i))
        env = self.env_from_inputs(vals)
        return 'sat', env

    # -- refinement of transcendental atoms
    def refine(self, env):
        """Add true facts about function atoms around env."""
        n = 0
        sv = (self.pbounds, self._bcache, self.pc_keys)
        self.pbounds, self._bcache, self.pc_keys = {}, {}, {}
        try:
            for at in list(self.atom_table):
                if at.kind == 'fn':
                    try:
                        x0 = at.args[0].evalf(env)
                    except ZeroDivisionError:
                        continue
                    if not math.isfinite(x0):
                        continue
                    for lem in _point_lemmas(at, x0):
                        if isinstance(lem, SymBool):
                            self.lemmas.append(lem)
                            n += 1
        finally:
            self.pbounds, self._bcache, self.pc_keys = sv
        return n


def _xk(at):
    if at.kind == 'uf':
        return at.fn
    if at.fn in ('sin', 'cos'):
        return None
    return at.extra


def _point_lemmas(at, x0):
    x = at.args[0]
    v = SymReal(P.var(at.id))
    X0 = to_frac(float(f'{x0:.9g}'))
    xf = float(X0)
    fn = at.fn
    try:
        if fn == 'exp':
            f0, d0 = math.exp(xf), math.exp(xf)
            sg = 'convex'
        elif fn == 'log':
            f0, d0 = math.log(xf), 1 / xf
            sg = 'concave'
        elif fn == 'pow':
            e = float(at.extra)
            f0, d0 = xf**e, e * xf ** (e - 1)
            sg = 'concave'
        elif fn == 'sin':
            f0, d0, sg = math.sin(xf), math.cos(xf), 'lip'
        elif fn == 'cos':
            f0, d0, sg = math.cos(xf), -math.sin(xf), 'lip'
        else:
            return []
    except (ValueError, OverflowError, ZeroDivisionError):
        return []
    if not (math.isfinite(f0) and math.isfinite(d0)):
        return []
    slack = Fraction(abs(f0) * 1e-12 + 1e-15)
    F, D = Fraction(f0), Fraction(d0)
    line = F + D * (x - X0)
    if sg == 'convex':
        return [
            v >= line - slack,
            b_implies(x <= X0, v <= F + slack),
            b_implies(x >= X0, v >= F - slack),
        ]
    if sg == 'concave':
        return [
            v <= line + slack,
            b_implies(x <= X0, v <= F + slack),
            b_implies(x >= X0, v >= F - slack),
        ]
    # |f - line| <= (x-x0)^2/2
    q = (x - X0) * (x - X0) / 2
    return [v <= line + q + slack, v >= line - q - slack]


def _trig_axioms(x, c, s, lo, hi):
    pi = PI
    out = []
    h = pi / 2
    k0 = math.floor(lo / (math.pi / 2)) - 1
    k1 = math.ceil(hi / (math.pi / 2)) + 1
    for k in range(k0, k1 + 1):
        a, b = h * k, h * (k + 1)
        if float(b) < lo or float(a) > hi:
            continue
        q = k % 4
        sc = 1 if q in (0, 3) else -1
        ss = 1 if q in (0, 1) else -1
        out.append(
            b_implies(
                b_and(x > a, x < b),
                b_and(c * sc > 0, s * ss > 0),
            )
        )
        cc, sn = _const_trig(float(a))
        out.append(b_implies(x == a, b_and(c == cc, s == sn)))
    out.append(s_abs_le(s, x))
    return [o for o in out if o is not True]


def s_abs_le(s, x):
    """|s| <= |x|."""
    return b_or(
        b_and(x >= 0, s <= x, s >= -x), b_and(x < 0, s >= x, s <= -x)
    )


def _p(a, e):
    try:
        return a**e
    except OverflowError:
        return INF if (a > 0 or e % 2 == 0) else -INF


def _imul(a, b, c, d):
    v = []
    for x in (a, b):
        for y in (c, d):
            z = x * y
            if z != z:
                z = 0.0
            v.append(z)
    return min(v), max(v)


def _pscale1(n):
    if P.is_const(n):
        return n
    c = n[P.lead(n)]
    return P.scale(n, 1 / abs(c)) if abs(c) != 1 else n


def _pscale1s(n):
    if P.is_const(n):
        return n
    c = n[P.lead(n)]
    return P.scale(n, 1 / c) if c != 1 else n


def _z3val(m, v, default):
    r = m.eval(v, model_completion=False)
    if z3.is_rational_value(r):
        f = Fraction(r.numerator_as_long(), r.denominator_as_long())
        try:
            return float(f)
        except OverflowError:
            return default
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return float(
            Fraction(a.numerator_as_long(), a.denominator_as_long())
        )
    return default


assert os is not None
