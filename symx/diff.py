"""Differential harnesses: a code function against an independent formula."""

import importlib
import math

import numpy as np

from . import core as K
from . import m
from .harness import harness


class _Reject:
    def __repr__(self):
        return 'REJECT'


REJECT = _Reject()
OUT = object()  # outside the stated domain


class D:
    """Marks an argument that may also be left out (documented default)."""

    def __init__(self, spec):
        self.spec = spec


def resolve(path):
    mod, _, name = path.rpartition('.')
    o = importlib.import_module('structuralcodes.' + mod)
    return getattr(o, name)


def compare(c, name, got, exp, rtol=1e-6, atol=0.0):
    """Compare scalars, sequences, arrays and dictionaries."""
    if isinstance(exp, dict):
        c.check(f'{name} keys', set(got) == set(exp))
        for k in exp:
            compare(c, f'{name}[{k}]', got[k], exp[k], rtol, atol)
        return
    if isinstance(exp, (list, tuple)):
        if isinstance(got, np.ndarray):
            got = list(got.reshape(-1)) if got.ndim <= 1 else list(got)
        c.check(f'{name} length', len(got) == len(exp))
        for i, (g, e) in enumerate(zip(got, exp)):
            compare(c, f'{name}[{i}]', g, e, rtol, atol)
        return
    if exp is None or isinstance(exp, (str, bool)):
        c.check(f'{name}={exp}', got == exp)
        return
    if isinstance(exp, float) and math.isinf(exp):
        c.check(f'{name}={exp}', not K.is_sym(got) and got == exp)
        return
    c.eq(name, got, exp, rtol, atol)


def draw(c, args):
    """Draw the arguments described by args."""
    kw = {}
    for n, spec in args.items():
        if isinstance(spec, D):
            if c.choice(f'{n}?', ['given', 'default']) == 'default':
                continue
            spec = spec.spec
        if isinstance(spec, tuple) and len(spec) == 2:
            kw[n] = c.real(n, *spec)
        elif isinstance(spec, list):
            kw[n] = c.choice(n, spec)
        else:
            kw[n] = spec
    return kw


def bounds_text(args):
    out = []
    for n, s in args.items():
        opt = ''
        if isinstance(s, D):
            s, opt = s.spec, ' or default'
        if isinstance(s, tuple):
            out.append(f'{n} in [{s[0]}, {s[1]}]{opt}')
        elif isinstance(s, list):
            out.append(f'{n} one of {s}{opt}')
        else:
            out.append(f'{n}={s!r}{opt}')
    return '; '.join(out)


def diff(prop, path, ref, rtol=1e-6, atol=0.0, name=None, exc=ValueError,
         assume=None, hk=None, pos=False, **args):
    """Register path(**args) == ref(**args) over the whole argument box."""
    label = name or path

    def fn(c):
        kw = draw(c, args)
        if assume is not None:
            c.assume(assume(**kw))
        e = ref(**kw)
        c.assume(e is not OUT)
        f = resolve(path)
        if e is REJECT:
            bad = c.raises(lambda: f(**kw), exc=exc)
            c.check('out of domain input is rejected', bad)
            return
        got = f(*kw.values()) if pos else f(**kw)
        compare(c, 'value', got, e, rtol, atol)

    k = dict(bounds=bounds_text(args))
    k.update(hk or {})
    harness(prop, label, **k)(fn)


assert m


def vec(prop, path, ref, over=('t',), rtol=1e-6, atol=0.0, name=None,
        containers=('array', 'list'), n=2, hk=None, whole=None, **args):
    """path called with arrays for the arguments named in over.

    whole: lists of integers; the arguments named in over are then arrays of
    integers, each entry one of them, and the others stay real.
    """
    label = name or f'{path}(array)'
    if whole:
        ivec(prop, path, ref, whole, over, rtol, atol, label, n, hk, args)

    def fn(c):
        kw = draw(c, {k: v for k, v in args.items() if k not in over})
        vals = {
            o: [c.real(f'{o}{i}', *args[o]) for i in range(n)] for o in over
        }
        exp = [
            ref(**kw, **{o: vals[o][i] for o in over}) for i in range(n)
        ]
        cont = c.choice('container', list(containers))
        arrs = {}
        for o in over:
            if cont == 'array':
                arrs[o] = np.array(
                    vals[o], dtype=object if c.symbolic else float
                )
            else:
                arrs[o] = list(vals[o])
        got = resolve(path)(**kw, **arrs)
        c.check('shape', np.shape(got) == (n,))
        for i in range(n):
            c.eq(f'value[{i}]', got[i], exp[i], rtol, atol)
            for o in over:
                c.check('input unchanged', arrs[o][i] is vals[o][i]
                        or arrs[o][i] == vals[o][i])

    k = dict(bounds=f'{n} entries; ' + bounds_text(args))
    k.update(hk or {})
    harness(prop, label, **k)(fn)


def ivec(prop, path, ref, whole, over, rtol, atol, label, n, hk, args):
    """path called with arrays of whole numbers."""

    def fn(c):
        kw = draw(c, {k: v for k, v in args.items() if k not in over})
        vals = {o: [c.choice(f'{o}{i}', list(whole)) for i in range(n)]
                for o in over}
        exp = [ref(**kw, **{o: vals[o][i] for o in over}) for i in range(n)]
        c.assume(all(e is not OUT for e in exp))
        arrs = {o: np.array(vals[o], dtype=int) for o in over}
        got = resolve(path)(**kw, **arrs)
        c.check('shape', np.shape(got) == (n,))
        for i in range(n):
            c.eq(f'value[{i}]', got[i], exp[i], rtol, atol)
            for o in over:
                c.check('input unchanged', arrs[o][i] == vals[o][i])

    k = dict(bounds=f'{n} whole numbers out of {list(whole)} for '
             f'{", ".join(over)}; ' + bounds_text(
                 {k: v for k, v in args.items() if k not in over}))
    k.update(hk or {})
    harness(prop, f'{label}(whole numbers)', **k)(fn)


def table2d(prop, name, call, xs, ys, values, bounds='', rtol=1e-5, hk=None,
            setup=None, interior=True):
    """call(c, x, y) interpolates values[i][j] given at (xs[i], ys[j])."""
    hk = hk or {}

    def pre(c):
        return setup(c) if setup else {}

    def V(tab, i, j):
        return tab(i, j) if callable(tab) else tab[i][j]

    @harness(prop, f'{name}(tabulated values)',
             bounds='every entry of the table; ' + bounds, **hk)
    def nodes(c):
        i = c.choice('i', list(range(len(xs))))
        j = c.choice('j', list(range(len(ys))))
        c.eq('tabulated value', call(c, xs[i], ys[j]),
             V(values, i, j), rtol=rtol)

    @harness(prop, f'{name}(along rows and columns)',
             bounds='one coordinate tabulated, the other anywhere between '
             'two entries; ' + bounds, **hk)
    def lines(c):
        ax = c.choice('axis', [0, 1])
        a, b = (xs, ys) if ax == 0 else (ys, xs)
        i = c.choice('i', list(range(len(a) - 1)))
        j = c.choice('j', list(range(len(b))))
        w = a[i + 1] - a[i]
        v = c.real('v', a[i] + 0.01 * w, a[i + 1] - 0.01 * w)
        t = (v - a[i]) / w
        if ax == 0:
            got = call(c, v, b[j])
            p, q = V(values, i, j), V(values, i + 1, j)
        else:
            got = call(c, b[j], v)
            p, q = V(values, j, i), V(values, j, i + 1)
        c.eq('linear between entries', got, p * (1 - t) + q * t, rtol=rtol)

    if not interior:
        return

    @harness(prop, f'{name}(inside a cell)',
             bounds='both coordinates anywhere inside a cell; ' + bounds,
             **hk)
    def inside(c):
        i = c.choice('i', list(range(len(xs) - 1)))
        j = c.choice('j', list(range(len(ys) - 1)))
        w, h = xs[i + 1] - xs[i], ys[j + 1] - ys[j]
        x = c.real('x', xs[i] + 0.01 * w, xs[i + 1] - 0.01 * w)
        y = c.real('y', ys[j] + 0.01 * h, ys[j + 1] - 0.01 * h)
        got = call(c, x, y)
        cs = [V(values, p, q) for p in (i, i + 1) for q in (j, j + 1)]
        c.le('not above the largest corner', got, max(cs), rtol=rtol)
        c.le('not below the smallest corner', min(cs), got, rtol=rtol)
