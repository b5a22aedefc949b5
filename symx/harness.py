"""Harnesses: one python function, run symbolically and concretely."""

import json
import math
import os
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np

from . import core as K
from . import geo
from . import m
from . import poly as P
from .core import (
    BudgetExceeded, PathAbort, SymBool, SymCtx, SymReal, Unsupported, b_and,
    b_not, b_or,
)
from .shim import Installed

REGISTRY = {}
_KNOWN = None


def known_failure(h, f, choices):
    """Whether failure f = (check, detail) of h is a listed finding."""
    global _KNOWN
    if _KNOWN is None:
        path = os.path.join(
            os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            'known_findings.json',
        )
        _KNOWN = []
        if os.path.exists(path):
            with open(path) as fh:
                _KNOWN = json.load(fh).get('findings', [])
    return any(
        k['harness'] == h.full
        and f[0] in k.get('checks', [k.get('check')])
        and k.get('detail', '') in f[1]
        and all(choices.get(c) == x for c, x in k.get('choices', {}).items())
        for k in _KNOWN
    )


class Harness:
    def __init__(self, prop, name, fn, bounds='', tier='quick', budget=None,
                 timeout_ms=6000, stubs=(), outside='', max_paths=20000,
                 numeric=False):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.tier = tier
        self.budget = budget
        self.timeout_ms = timeout_ms
        self.stubs = stubs
        self.outside = outside
        self.max_paths = max_paths
        self.args = ()

    @property
    def full(self):
        return f'{self.prop}.{self.name}'


def harness(prop, name=None, params=None, **kw):
    """Register a harness.  params: list of dicts, one harness for each."""

    def deco(fn):
        nm = name or fn.__name__
        if params is None:
            h = Harness(prop, nm, fn, **kw)
            assert h.full not in REGISTRY, h.full
            REGISTRY[h.full] = h
        else:
            for p in params:
                tag = '_'.join(str(v) for v in p.values())
                p = dict(p)

                def f(c, _p=p):
                    return fn(c, **_p)

                h = Harness(prop, f'{nm}[{tag}]', f, **kw)
                assert h.full not in REGISTRY, h.full
                REGISTRY[h.full] = h
        return fn

    return deco


class AssumeFail(BaseException):
    pass


# --------------------------------------------------------------------------
# concrete mode


class ConCtx:
    """Runs a harness with concrete inputs on the unpatched code."""

    symbolic = False

    def __init__(self, inputs, choices, slack=0.5):
        self.inputs = inputs
        self.choicev = choices
        self.slack = slack
        self.failures = []
        self.outputs = []
        self.used = {}

    def real(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        if v is None:
            if lo is not None and hi is not None:
                v = float(lo) + 0.4142 * (float(hi) - float(lo))
            elif lo is not None:
                v = float(lo) + 1.37
            elif hi is not None:
                v = float(hi) - 1.37
            else:
                v = 0.731
        v = float(v)
        if lo is not None and v < float(lo):
            v = float(lo)
        if hi is not None and v > float(hi):
            v = float(hi)
        self.used[name] = v
        return v

    fresh = real

    def choice(self, name, options):
        options = list(options)
        i = self.choicev.get(name, 0)
        self.used[name] = i
        return options[i]

    def assume(self, b):
        if not bool(b):
            raise AssumeFail()

    def uf(self, name, *args, **kw):
        """Uninterpreted function, concretised from the solver's model."""
        return self.ufs(name, args)

    def check(self, name, cond):
        if not bool(cond):
            self.failures.append((name, 'condition is false'))

    def _note(self, name, v):
        self.outputs.append((name, v))

    def eq(self, name, a, b, rtol=1e-6, atol=0.0):
        a, b = _num(a), _num(b)
        self._note(name, a)
        if isinstance(a, complex) or isinstance(b, complex):
            self.failures.append((name, f'complex value {a!r} vs {b!r}'))
            return
        if not (math.isfinite(a) and math.isfinite(b)):
            if not (a == b):
                self.failures.append((name, f'{a!r} vs {b!r}'))
            return
        if abs(a - b) > self.slack * (rtol * abs(b) + atol):
            self.failures.append((name, f'got {a!r}, expected {b!r}'))

    def le(self, name, a, b, rtol=1e-6, atol=0.0):
        a, b = _num(a), _num(b)
        self._note(name, a)
        if not (a <= b + self.slack * (rtol * abs(b) + atol)):
            self.failures.append((name, f'{a!r} is not <= {b!r}'))

    def raises(self, fn, *a, exc=ValueError, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def derivative(self, f, x, h=None):
        h = h or 1e-5 * max(1e-3, abs(x))
        return (
            -f(x + 2 * h) + 8 * f(x + h) - 8 * f(x - h) + f(x - 2 * h)
        ) / (12 * h)

    def cut(self, why):
        raise AssumeFail(why)

    def ctx_obj(self):
        return self


def _num(x):
    x = m.val(x)
    if isinstance(x, (complex, np.complexfloating)):
        return complex(x)
    return float(x)


# --------------------------------------------------------------------------
# symbolic mode


class Cut(BaseException):
    """Path stopped on purpose at a stated bound."""


class SymHarnessCtx(SymCtx):
    def __init__(self, h, deadline, seed):
        super().__init__(h.full, h.timeout_ms, deadline, seed)
        self.h = h
        self.results = {}  # name -> dict(status counts)
        self.violations = []
        self.known_violations = []
        self.inconclusive = []
        self.cuts = {}
        self.samples = []

    # -- checks
    def _key(self, name):
        k = self.occ.get(name, 0)
        self.occ[name] = k + 1
        return (name, k, tuple(self.trace), self._choice_key())

    def _choice_key(self):
        return tuple(sorted((k, v[0]) for k, v in self.choices.items()))

    def _res(self, name):
        return self.results.setdefault(
            name,
            {'reached': 0, 'discharged': 0, 'trivial': 0, 'violated': 0,
             'inconclusive': 0},
        )

    def check(self, name, cond):
        if isinstance(cond, (np.bool_,)):
            cond = bool(cond)
        self._check(name, b_not(cond) if isinstance(cond, SymBool)
                    else (not cond), None)

    def _check(self, name, viol, viol_strong):
        """Decide whether viol is possible on this path."""
        key = self._key(name)
        if key in self.check_cache:
            return
        r = self._res(name)
        r['reached'] += 1
        self.check_cache[key] = True
        if viol is False:
            # both sides are the same expression: the solver sees "false"
            s = K.z3.Solver()
            s.add(K.z3.BoolVal(False))
            s.check()
            self.stats.queries += 1
            self.stats.unsat += 1
            r['discharged'] += 1
            r['trivial'] += 1
            return
        if viol is True:
            viol = b_or(SymBool('le0', {}))  # 0<=0
        for rnd in range(6):
            # a. the witness of the path
            cand = None
            env = self.get_env() if rnd == 0 else None
            if env is not None:
                v = viol.evalf(env, 1e-12)
                if v is True:
                    cand = env
            if cand is None and viol_strong is not None and rnd < 3:
                st, e = self.solve([viol_strong])
                if st == 'sat':
                    cand = e
            if cand is None:
                st, e = self.solve([viol])
                if st == 'unknown':
                    st, e = self._hard(viol)
                if st == 'unsat':
                    r['discharged'] += 1
                    return
                if st == 'unknown':
                    r['inconclusive'] += 1
                    self.inconclusive.append((name, 'solver: unknown'))
                    return
                cand = e
            rep = self._replay(cand, name)
            if rep is None:
                # independent path facts may be missing from the slice
                st, e = self.solve([viol], use_all=True)
                if st == 'unsat':
                    r['discharged'] += 1
                    return
                if st == 'sat':
                    rep = self._replay(e, name)
            if rep is not None:
                r['violated'] += 1
                if all(
                    known_failure(self.h, f, rep['choices'])
                    for f in rep['failures']
                ):
                    # listed findings do not end the exploration
                    if len(self.known_violations) < 3:
                        self.known_violations.append(rep)
                    return
                self.violations.append(rep)
                if len(self.violations) >= 3:
                    raise BudgetExceeded()
                return
            if not self.refine(cand):
                break
            self.model_env = None
        r['inconclusive'] += 1
        self.inconclusive.append(
            (name, f'counterexample does not reproduce: '
             f'{self._inputs_of(cand)}')
        )

    def _hard(self, viol):
        """The solver gave up: second solver, then search for a witness."""
        st, e = self.solve([viol], timeout=4 * self.timeout_ms)
        if st != 'unknown':
            return st, e
        env = self.get_env()
        if env is None:
            return 'unknown', None
        ins = [
            at.id for at in self.atom_table
            if at.kind == 'input' and at.id in env
        ]
        for free in ins[:12]:
            pins = []
            for i in ins:
                if i != free:
                    e = SymReal(P.var(i)) == Fraction(env[i])
                    if isinstance(e, SymBool):
                        pins.append(e)
            st, e = self.solve([viol] + pins, timeout=2000)
            if st == 'sat':
                return st, e
        return 'unknown', None

    def _inputs_of(self, env):
        out = {}
        for name, i in self.inputs.items():
            if env is not None and i in env:
                out[name] = env[i]
        return out

    def _replay(self, env, name=None, kinds=('fail',)):
        """Run the harness concretely on the real code."""
        if env is None:
            return None
        inputs = self._inputs_of(env)
        choices = {k: v[0] for k, v in self.choices.items()}
        rep = run_concrete(self.h, inputs, choices, self.installed)
        if name is not None:
            # the failure of a listed finding does not confirm another one
            mine = [f for f in rep['failures'] if f[0] == name]
            if not mine and all(
                known_failure(self.h, f, choices) for f in rep['failures']
            ):
                return None
        if rep['failures']:
            return {
                'harness': self.h.full, 'inputs': inputs,
                'choices': choices, 'failures': rep['failures'],
                'check': name,
            }
        return None

    def eq(self, name, a, b, rtol=1e-6, atol=0.0):
        a, b = m.val(a), m.val(b)
        a2, b2 = K.S(a), K.S(b)
        if a2 is None or b2 is None:
            raise TypeError(f'{name}: not a number: {a!r} / {b!r}')
        self.outputs.append((name, a2, atol))
        if a2.is_const() and b2.is_const():
            u, v = float(a2.const()), float(b2.const())
            self._check(name, not abs(u - v) <= rtol * abs(v) + atol, None)
            return
        d = a2 - b2
        if not d.n:
            self._check(name, False, None)
            return
        # exact identity first
        key = (name, self.occ.get(name, 0), tuple(self.trace),
               self._choice_key())
        if key in self.check_cache:
            self.occ[name] = self.occ.get(name, 0) + 1
            return
        env = self.get_env()
        close = None
        if env is not None:
            try:
                u, v = a2.evalf(env), b2.evalf(env)
                close = abs(u - v) <= rtol * abs(v) + atol
            except (ZeroDivisionError, OverflowError):
                close = None
        if atol and self.quick(
            b_or(d > K.to_frac(atol), -d > K.to_frac(atol))
        ) is False:
            # within the tolerance everywhere in the box
            self._check(name, False, None)
            return
        if close is not False and not (atol and self.plain(d)):
            st, _ = self.solve(
                [b_not(d._cmp0('eq0'))],
                timeout=max(1000, self.timeout_ms // 3),
            )
            if st == 'unsat':
                r = self._res(name)
                self._key(name)
                self.check_cache[key] = True
                r['reached'] += 1
                r['discharged'] += 1
                return

        def viol(rt, at):
            ra = K.to_frac(rt) * b2
            t1, t2 = ra + at, -ra + at
            return b_or(
                b_and(d > t1, d > t2), b_and(-d > t1, -d > t2)
            )

        at = K.to_frac(atol)
        strong = viol(max(1e-2, rtol), at * 1000) if rtol < 1e-2 else None
        self._check(name, viol(rtol, at), strong)

    def plain(self, d):
        """Whether d is a rational function of the inputs alone."""
        return all(self.atom_table[i].kind == 'input' for i in d.atoms())

    def le(self, name, a, b, rtol=1e-6, atol=0.0):
        a, b = m.val(a), m.val(b)
        a2, b2 = K.S(a), K.S(b)
        self.outputs.append((name, a2, atol))
        if a2.is_const() and b2.is_const():
            u, v = float(a2.const()), float(b2.const())
            self._check(name, not u <= v + rtol * abs(v) + atol, None)
            return
        d = a2 - b2
        ex = d._cmp0('le0')
        if (self.quick(ex) if isinstance(ex, SymBool) else ex) is True:
            self._check(name, False, None)
            return

        def viol(rt, at):
            ra = K.to_frac(rt) * b2
            return b_and(d > ra + at, d > -ra + at)

        at = K.to_frac(atol)
        strong = viol(max(1e-2, rtol), at * 1000) if rtol < 1e-2 else None
        self._check(name, viol(rtol, at), strong)

    def raises(self, fn, *a, exc=ValueError, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def derivative(self, f, x, h=None):
        """Exact derivative of f at x (x must be an input atom)."""
        y = K.S(m.val(f(x)))
        (mono,) = x.n
        i = mono[0][0]
        return sym_diff(self, y, i)

    def cut(self, why):
        raise Cut(why)


def sym_diff(cx, y, i, memo=None):
    """d y / d atom_i, through derived atoms."""
    if memo is None:
        memo = {}

    def datom(j):
        if j == i:
            return K.ONE_
        if j in memo:
            return memo[j]
        at = cx.atom_table[j]
        if at.kind == 'input' or i not in cx.closure([j]):
            memo[j] = K.ZERO
            return K.ZERO
        v = SymReal(P.var(j))
        if at.fn == 'angle':
            c, s = at.args
            r = dreal(s) * c - dreal(c) * s
        elif at.kind == 'sel':
            a, b = at.args
            hi = cx.decide(a >= b)
            r = dreal(a if hi == (at.fn == 'max') else b)
        else:
            x = at.args[0]
            dx = dreal(x)
            if not dx.n:
                r = K.ZERO
            elif at.fn == 'root':
                q = at.extra
                r = dx / (q * K.s_pow(v, q - 1))
            elif at.fn == 'exp':
                r = v * dx
            elif at.fn == 'log':
                r = dx / x
            elif at.fn == 'pow':
                r = at.extra * v / x * dx
            elif at.fn == 'sin':
                r = SymReal(P.var(at.extra)) * dx
            elif at.fn == 'cos':
                r = -SymReal(P.var(j + 1)) * dx
            else:
                raise Unsupported(f'derivative of {at.fn}')
        memo[j] = r
        return r

    def dpoly(p):
        t = K.ZERO
        for j in P.atoms(p):
            dj = datom(j)
            if dj.n:
                t = t + SymReal(P.diff(p, j)) * dj
        return t

    def dreal(x):
        dn = dpoly(x.n)
        if P.is_const(x.d):
            return dn / P.const_val(x.d)
        dd = dpoly(x.d)
        return (dn * SymReal(x.d) - SymReal(x.n) * dd) / (
            SymReal(x.d) * SymReal(x.d)
        )

    return dreal(y)


# --------------------------------------------------------------------------
# running


class _Removed:
    """Temporarily removes the shims."""

    def __init__(self, installed):
        self.i = installed

    def __enter__(self):
        self.ctx, K.CTX = K.CTX, None
        if self.i is not None:
            self.i.__exit__()

    def __exit__(self, *a):
        if self.i is not None:
            self.i.__enter__()
        K.CTX = self.ctx
        return False


def run_concrete(h, inputs, choices, installed=None):
    """Run harness h on concrete inputs with the real code."""
    c = ConCtx(inputs, choices)
    out = {'failures': [], 'outputs': [], 'exc': None, 'assume': False}
    with _Removed(installed), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            with np.errstate(all='ignore'):
                h.fn(c)
        except AssumeFail:
            out['assume'] = True
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [
                f'{f.filename}:{f.lineno}' for f in tb
                if '/structuralcodes/' in f.filename
            ]
            out['exc'] = f'{type(e).__name__}: {e}'
            c.failures.append(
                ('no unexpected exception',
                 f'{type(e).__name__}: {e} at {where[-1:] or "harness"}')
            )
    out['failures'] = c.failures
    out['outputs'] = c.outputs
    if out['assume']:
        # checks made before the assumption failed are out of the domain
        out['failures'] = []
    return out


class CoverTracker:
    """Records which structuralcodes functions were executed."""

    TOOL = 3

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'symx')
        except ValueError:
            self.on = False
            return self
        self.on = True

        def start(code, off):
            fn = code.co_filename
            k = fn.find('/structuralcodes/')
            if k >= 0 and code.co_name != '<module>':
                self.seen.add(
                    fn[k + 1:].replace('.py', '').replace('/', '.')
                    + ':' + code.co_qualname
                )
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        if self.on:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.register_callback(self.TOOL, mon.events.PY_START, None)
            mon.free_tool_id(self.TOOL)
        return False


def run_symbolic(h, budget=60.0, seed=1, validate=True):
    """Explore every path of harness h."""
    t0 = time.time()
    deadline = t0 + budget
    cx = SymHarnessCtx(h, deadline, seed)
    out = {
        'harness': h.full, 'bounds': h.bounds, 'outside': h.outside,
        'stubs': list(h.stubs), 'complete': True, 'error': None,
    }
    stack = [[]]
    unsupported = []
    validated = mismatched = unvalidated = 0
    mism = []
    vacuous = 0
    K.CTX = cx
    inst = Installed(extra=geo.EXTRA)
    with warnings.catch_warnings(), CoverTracker() as cov, inst:
        warnings.simplefilter('ignore')
        cx.installed = inst
        try:
            while stack:
                prefix = stack.pop()
                cx.start_path(prefix)
                status = 'ok'
                try:
                    with np.errstate(all='ignore'):
                        h.fn(cx)
                except Cut as e:
                    status = 'cut'
                    cx.cuts[str(e)] = cx.cuts.get(str(e), 0) + 1
                except PathAbort:
                    status = 'abort'
                except Exception as e:
                    status = 'exc'
                    exc = e
                # alternatives
                for k in cx.forks:
                    if k >= len(prefix):
                        ent = cx.trace[k]
                        if ent[0] == 'f':
                            stack.append(
                                cx.trace[:k] + [('d', not ent[1])]
                            )
                        else:
                            for v in range(ent[2] - 1, 0, -1):
                                stack.append(
                                    cx.trace[:k] + [('c', v, ent[2])]
                                )
                if status == 'abort':
                    continue
                cx.stats.paths += 1
                if cx.path_concretised:
                    out['complete'] = False
                env = cx.get_env()
                if env is None:
                    st, env = cx.solve([], use_all=True)
                    if st == 'unsat':
                        if cx.path_concretised:
                            unsupported.append('path lost: value fixed')
                        continue
                if status == 'exc':
                    rep = cx._replay(env, 'exception')
                    nm = f'{type(exc).__name__}: {str(exc)[:120]}'
                    if rep is not None and all(
                        known_failure(h, f, rep['choices'])
                        for f in rep['failures']
                    ):
                        if len(cx.known_violations) < 3:
                            cx.known_violations.append(rep)
                    elif rep is not None:
                        cx.violations.append(rep)
                        if len(cx.violations) >= 3:
                            raise BudgetExceeded()
                    else:
                        tb = traceback.extract_tb(exc.__traceback__)
                        loc = [
                            f'{f.filename.split("/")[-1]}:{f.lineno}'
                            for f in tb
                        ][-3:]
                        unsupported.append(f'{nm} @ {loc}')
                    continue
                if status == 'ok' and not cx.occ:
                    vacuous += 1
                if (
                    validate and env is not None
                    and validated + mismatched < 40
                ):
                    ok = all(
                        b.evalf(env, 1e-9) is True for b in cx.pc
                    )
                    if not ok:
                        unvalidated += 1
                    else:
                        r = _validate(cx, env)
                        if r is None:
                            unvalidated += 1
                        elif r is True:
                            validated += 1
                        else:
                            mismatched += 1
                            mism.append(r)
                if len(cx.samples) < 2 and env is not None:
                    cx.samples.append({
                        'inputs': cx._inputs_of(env),
                        'choices': {
                            k: str(v[1]) for k, v in cx.choices.items()
                        },
                        'decisions': len(cx.trace),
                    })
                if cx.stats.paths >= h.max_paths:
                    raise BudgetExceeded()
        except BudgetExceeded:
            out['complete'] = False
    K.CTX = None
    out.update(
        results=cx.results,
        violations=cx.violations + cx.known_violations,
        inconclusive=cx.inconclusive[:20],
        n_inconclusive=len(cx.inconclusive),
        unsupported=unsupported[:10], n_unsupported=len(unsupported),
        stats=cx.stats.as_dict(), functions=sorted(cov.seen),
        validated=validated, mismatched=mismatched,
        unvalidated=unvalidated, mismatches=mism[:5], vacuous=vacuous,
        samples=cx.samples, cuts=cx.cuts, atoms=len(cx.atom_table),
        wall=time.time() - t0,
    )
    return out


def _validate(cx, env):
    """Compare the encoding with the real code at the path's witness."""
    inputs = cx._inputs_of(env)
    choices = {k: v[0] for k, v in cx.choices.items()}
    pred = list(cx.outputs)
    rep = run_concrete(cx.h, inputs, choices, cx.installed)
    if rep['assume']:
        return None
    if rep['exc'] or len(rep['outputs']) != len(pred):
        return {
            'inputs': inputs, 'choices': choices,
            'why': rep['exc'] or 'different number of outputs',
        }
    for (n1, a, at), (n2, b) in zip(pred, rep['outputs']):
        if isinstance(a, bool) or isinstance(b, (bool, complex)):
            continue
        try:
            av = a.evalf(env)
        except (ZeroDivisionError, OverflowError):
            continue
        if n1 != n2 or not (
            abs(av - b) <= 1e-6 * max(abs(av), abs(b)) + 1e-9 + at
        ):
            return {
                'inputs': inputs, 'choices': choices,
                'why': f'{n1}: encoded {av!r}, real {b!r}',
            }
    return True


assert types is not None
