"""Math functions for oracles: work on floats and on symbolic values."""

import math

from . import core as K


def _s(*xs):
    return any(isinstance(x, K.SymReal) for x in xs)


def sqrt(x):
    return K.s_root(x, 2) if _s(x) else math.sqrt(x)


def cbrt(x):
    return K.s_root(x, 3) if _s(x) else x ** (1 / 3)


def pow(x, e):
    if _s(x, e):
        return K.s_pow(x, e)
    return float(x) ** float(e)


def exp(x):
    return K.s_exp(x) if _s(x) else math.exp(x)


def log(x):
    return K.s_log(x) if _s(x) else math.log(x)


def sin(x):
    return K.s_trig(x)[1] if _s(x) else math.sin(x)


def cos(x):
    return K.s_trig(x)[0] if _s(x) else math.cos(x)


def tan(x):
    return K.S(x).tan() if _s(x) else math.tan(x)


def tanh(x):
    return x.tanh() if _s(x) else math.tanh(x)


def atan2(y, x):
    return K.s_atan2(y, x) if _s(x, y) else math.atan2(y, x)


def mx(*a):
    if len(a) == 1:
        a = tuple(a[0])
    r = a[0]
    for x in a[1:]:
        r = K.s_max(r, x) if _s(r, x) else max(r, x)
    return r


def mn(*a):
    if len(a) == 1:
        a = tuple(a[0])
    r = a[0]
    for x in a[1:]:
        r = K.s_min(r, x) if _s(r, x) else min(r, x)
    return r


def ab(x):
    return K.s_abs(x) if _s(x) else abs(x)


def AND(*a):
    if any(isinstance(x, K.SymBool) for x in a):
        return K.b_and(*a)
    return all(bool(x) for x in a)


def OR(*a):
    if any(isinstance(x, K.SymBool) for x in a):
        return K.b_or(*a)
    return any(bool(x) for x in a)


def NOT(x):
    return K.b_not(x) if isinstance(x, K.SymBool) else not x


def IMPLIES(a, b):
    return OR(NOT(a), b)


def interp(x, xs, ys):
    """Piecewise linear interpolation, constant outside (forks)."""
    if x <= xs[0]:
        return ys[0]
    for k in range(len(xs) - 1):
        if x <= xs[k + 1]:
            t = (x - xs[k]) / (xs[k + 1] - xs[k])
            return ys[k] + t * (ys[k + 1] - ys[k])
    return ys[-1]


def val(x):
    """Python float / SymReal out of 0-d or 1-element arrays."""
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise ValueError(f'expected one value, got shape {x.shape}')
        return x.reshape(-1)[0]
    return x
