"""C01, C02, C03, C06: constitutive laws against their defining curves."""

from fractions import Fraction as F

import numpy as np

from symx import m
from symx.harness import harness

from .lawspec import SPECS, arr, off

ALL = [dict(law=n) for n in SPECS]
BND = 'strain in [-0.12, 0.12] or the span of the law; ' + '; '.join(
    f'{n}: {s.bounds}' for n, s in SPECS.items())
OUTSIDE = ('strains within 1e-5 (1e-6 absolute plus 1e-5 relative in the '
           'code) of a finite strain limit, which the code snaps to the '
           'limit on purpose')


def clear_limits(c, s, p, e):
    off(c, e, [q for q in s.limits(p) if abs_lt(q)])


def abs_lt(q):
    return not (isinstance(q, (int, float)) and abs(q) >= 1)


@harness('C01', 'stress', params=ALL, bounds=BND, outside=OUTSIDE)
def stress(c, law):
    s = SPECS[law]
    p = s.draw(c)
    e = c.real('eps', *s.span)
    clear_limits(c, s, p, e)
    law_ = s.make(p)
    c.eq('stress', law_.get_stress(e), s.stress(p, e), atol=1e-9)
    c.eq('stress in an array', law_.get_stress(arr(c, [e, 0.0]))[0],
         s.stress(p, e), atol=1e-9)


@harness('C02', 'tangent formula', params=ALL, bounds=BND, outside=OUTSIDE)
def tangent(c, law):
    s = SPECS[law]
    p = s.draw(c)
    e = c.real('eps', *s.span)
    off(c, e, s.kinks(p))
    law_ = s.make(p)
    c.eq('tangent', law_.get_tangent(e), s.tangent(p, e), atol=1e-9)
    c.eq('tangent in an array', law_.get_tangent(arr(c, [e, 0.0]))[0],
         s.tangent(p, e), atol=1e-9)


@harness('C02', 'tangent is the derivative of the stress', params=ALL,
         bounds=BND, outside=OUTSIDE)
def tangent_derivative(c, law):
    s = SPECS[law]
    p = s.draw(c)
    e = c.real('eps', *s.span)
    off(c, e, s.kinks(p), gap=4e-5, rel=1e-3)
    off(c, e, [q for q in s.limits(p) if abs_lt(q)], gap=4e-5, rel=1e-3)
    L = s.make(p)
    d = c.derivative(L.get_stress, e, h=1e-6)
    scale = 1e-6 * 1e5 if not c.symbolic else 1e-9
    c.eq('tangent', L.get_tangent(e), d, rtol=1e-4, atol=scale)


@harness('C02', 'secant', params=ALL, bounds=BND, outside=OUTSIDE)
def secant(c, law):
    s = SPECS[law]
    p = s.draw(c)
    e = c.real('eps', *s.span)
    clear_limits(c, s, p, e)
    off(c, e, [0.0], gap=1e-7)
    law_ = s.make(p)
    c.eq('secant times strain', law_.get_secant(e) * e,
         s.stress(p, e), atol=1e-9)
    c.eq('secant in an array times strain',
         law_.get_secant(arr(c, [e, 0.0]))[0] * e, s.stress(p, e), atol=1e-9)


@harness('C02', 'secant and tangent at zero strain', params=ALL, bounds=BND)
def secant_zero(c, law):
    s = SPECS[law]
    if law.startswith('userdefined') and law != 'userdefined':
        return
    p = s.draw(c)
    how = c.choice('how', ['scalar', 'array'])
    L = s.make(p)
    t = s.tangent(p, 0.0)
    if how == 'scalar':
        c.eq('secant(0)', L.get_secant(0.0), t)
        c.eq('tangent(0)', L.get_tangent(0.0), t)
    else:
        c.eq('secant(0)', L.get_secant(arr(c, [0.0]))[0], t)
        c.eq('tangent(0)', L.get_tangent(arr(c, [0.0]))[0], t)


FN = ['get_stress', 'get_tangent', 'get_secant']


@harness('C03', 'array agrees with scalar', bounds='two strains; ' + BND,
         params=[dict(law=n, fn=f) for n in SPECS for f in FN])
def vector(c, law, fn):
    s = SPECS[law]
    p = s.draw(c)
    es = [c.real('e0', *s.span), c.real('e1', *s.span)]
    cont = c.choice('container', ['array', 'list'])
    L = s.make(p)
    f = getattr(L, fn)
    one = [f(e) for e in es]
    data = arr(c, es) if cont == 'array' else list(es)
    got = f(data)
    c.check('shape', np.shape(got) == (2,))
    for k in (0, 1):
        c.eq(f'value[{k}]', got[k], one[k], atol=1e-9)
        c.eq(f'input[{k}] unchanged', data[k], es[k], rtol=1e-12)
    c.check('scalar in, scalar out', all(np.ndim(v) == 0 for v in one))


@harness('C03', 'array at special strains', bounds=BND,
         params=[dict(law=n, fn=f) for n in SPECS for f in FN])
def vector_special(c, law, fn):
    """At the kinks and limits themselves, with both signs."""
    s = SPECS[law]
    p = s.draw(c)
    ks = [0.0] + s.kinks(p)
    e = ks[c.choice('kink', list(range(len(ks))))]
    L = s.make(p)
    f = getattr(L, fn)
    one = f(e)
    got = f(arr(c, [e, 0.0001]))
    c.check('shape', np.shape(got) == (2,))
    c.eq('value', got[0], one, atol=1e-9)


INT_LAWS = ('elastic', 'elasticplastic', 'parabola', 'bilinear', 'popovics',
            'sargin', 'userdefined', 'initial', 'parallel', 'whole stiffness')


def _int_law(c, law):
    import structuralcodes.materials.constitutive_laws as q

    E = c.real('E', 2.2, 3.8)
    if law == 'elastic':
        return q.Elastic(E)
    if law == 'elasticplastic':
        return q.ElasticPlastic(E, 3.2, 0.3, 9.0)
    if law == 'whole stiffness':
        # the stiffness a whole number, the hardening not
        return q.ElasticPlastic(4, 3.2, E / 10, 9)
    if law == 'parabola':
        return q.ParabolaRectangle(E, -1.6, -2.7)
    if law == 'bilinear':
        return q.BilinearCompression(E, -1.3, -3.5)
    if law == 'popovics':
        return q.Popovics(E, -1.5, -2.6)
    if law == 'sargin':
        return q.Sargin(E, -1.5, -2.6, 2.3)
    if law == 'userdefined':
        return q.UserDefined([-2.5, 0.0, 2.5], [-E, 0.0, 2 * E])
    if law == 'initial':
        return q.InitialStrain(q.Elastic(E), 0.4)
    return q.Parallel([q.Elastic(E), q.ElasticPlastic(2 * E, 3.2, 0.3, 9.0)])


@harness('C03', 'integer strains', budget=20,
         bounds='one stiffness or strength symbolic in [2.2, 3.8]; strains '
         '-1 and 0, 0 and 1, 2 and -2 in lists and integer arrays',
         params=[dict(law=n, fn=f) for n in INT_LAWS for f in FN])
def vector_integers(c, law, fn):
    es = c.choice('strains', [(0, -1), (1, 0), (2, -2)])
    if law in ('popovics', 'sargin', 'parabola') and fn == 'get_secant':
        # outside of the domain of the power
        c.assume(max(es) <= 0)
    L = _int_law(c, law)
    cont = c.choice('container', ['array', 'list'])
    f = getattr(L, fn)
    one = [f(float(e)) for e in es]
    got = f(np.array(es) if cont == 'array' else list(es))
    c.check('shape', np.shape(got) == (2,))
    for k in (0, 1):
        c.eq(f'value[{k}]', got[k], one[k], atol=1e-9)


@harness('C01', 'points in whole numbers', bounds='every strain in [-0.29, '
         '0.29] or [-50, 50]; polyline of four points with whole strains or ordinates in '
         'lists and arrays, flag 0 to 3')
def whole_points(c):
    s = SPECS['userdefined']
    x, y = c.choice('points', [
        ([-0.003, -0.001, 0.002, 0.004], [-7, 3, 5, 11]),
        ([-0.003, -0.001, 0.002, 0.004], [-410, -402, 395, 401]),
        ([-3, -1, 2, 7], [-0.7, 0.3, 0.5, 1.1]),
        ([-3, -1, 2, 7], [-5, 3, 4, 9]),
    ])
    p = dict(x=x, y=y, X=[F(str(v)) for v in x], Y=[F(str(v)) for v in y],
             flag=c.choice('flag', [0, 1, 2, 3]))
    box = c.choice('container', [list, np.array])
    L = s.make(dict(p, x=box(x), y=box(y)))
    span = (-0.29, 0.29) if x[0] > -1 else (-50, 50)
    e = c.real('e', *span)
    off(c, e, p['X'])
    c.eq('stress', L.get_stress(e), s.stress(p, e), atol=1e-6)
    c.eq('tangent', L.get_tangent(e), s.tangent(p, e), atol=1e-6)


@harness('C03', 'repeated evaluation', bounds='two strains; ' + BND,
         params=ALL)
def repeated(c, law):
    s = SPECS[law]
    p = s.draw(c)
    es = [c.real('e0', *s.span), c.real('e1', *s.span)]
    for e in es:
        clear_limits(c, s, p, e)
    L = s.make(p)
    L.get_stress(es[0])
    L.get_tangent(es[1])
    L.get_secant(es[1])
    L.get_ultimate_strain()
    # the second evaluation is the defining curve still
    c.eq('stress', L.get_stress(es[1]), s.stress(p, es[1]), atol=1e-9)


@harness('C06', 'reported limits', params=ALL, bounds=BND)
def limits(c, law):
    s = SPECS[law]
    p = s.draw(c)
    y = c.choice('yielding', [False, True])
    L = s.make(p)
    lo, hi = L.get_ultimate_strain(yielding=y)
    elo, ehi = s.limits(p, y)
    c.eq('minimum', lo, elo)
    c.eq('maximum', hi, ehi)
    c.le('minimum <= 0', lo, 0.0)
    c.le('0 <= maximum', 0.0, hi)


@harness('C06', 'stress at and beyond the limits', params=ALL, bounds=BND)
def at_limits(c, law):
    s = SPECS[law]
    p = s.draw(c)
    L = s.make(p)
    lim = L.get_ultimate_strain()
    k = c.choice('side', [0, 1])
    e = lim[k]
    if not abs_lt(e):
        e = 0.09 * (1 if k else -1)
    c.eq('curve stress at the limit', L.get_stress(e), s.stress(p, e),
         atol=1e-9)
    c.eq('curve stress at the limit (array)', L.get_stress(arr(c, [e]))[0],
         s.stress(p, e), atol=1e-9)
    d = c.real('beyond', 1e-4, 0.05)
    e2 = e + d if k else e - d
    c.eq('beyond the limit', L.get_stress(e2), s.stress(p, e2), atol=1e-9)
    c.eq('beyond the limit (array)', L.get_stress(arr(c, [e2]))[0],
         s.stress(p, e2), atol=1e-9)


@harness('C06', 'user ultimate strain', bounds='limits in [-0.1, 0.1]',
         params=[dict(law='Elastic'), dict(law='UserDefined')])
def user_limit(c, law):
    import structuralcodes.materials.constitutive_laws as LL

    a, b = c.real('a', -0.1, 0.1), c.real('b', -0.1, 0.1)
    how = c.choice('how', ['pair', 'single'])
    eu = (a, b) if how == 'pair' else a

    def make():
        if law == 'Elastic':
            return LL.Elastic(200000.0, eps_u=eu)
        return LL.UserDefined([-0.01, 0.01], [-1.0, 1.0], eps_u=eu)

    if how == 'single':
        c.assume(m.OR(a > 1e-6, a < -1e-6))
        r = m.ab(a)
        exp = (-r, r)
    else:
        lo, hi = m.mn(a, b), m.mx(a, b)
        c.assume(m.OR(lo < -1e-6, lo > 1e-6))
        c.assume(m.OR(hi < -1e-6, hi > 1e-6))
        if m.OR(lo > 0, hi < 0):
            c.check('limits on one side of zero are refused',
                    c.raises(make))
            return
        exp = (lo, hi)
    got = make().get_ultimate_strain()
    c.eq('minimum', got[0], exp[0])
    c.eq('maximum', got[1], exp[1])


@harness('C01', 'inadmissible parameters are refused',
         bounds='E in [-1e5, 0]')
def refused(c):
    import structuralcodes.materials.constitutive_laws as LL

    E = c.real('E', -1e5, 0)
    c.check('Elastic', c.raises(lambda: LL.Elastic(E)))
    c.check('ElasticPlastic',
            c.raises(lambda: LL.ElasticPlastic(E, c.real('fy', 1, 1000))))
    c.check('Popovics', c.raises(
        lambda: LL.Popovics(30.0, Ec=E)))
    f = c.choice('flag', [-1, 4, 7])
    c.check('UserDefined flag', c.raises(
        lambda: LL.UserDefined([-1.0, 1.0], [-1.0, 1.0], flag=f)))
    n = c.choice('n', [1, 2, 3])
    c.check('UserDefined lengths', c.raises(
        lambda: LL.UserDefined([-1.0, 0.0, 0.5, 1.0], [1.0] * n)))


@harness('C01', 'continuity', bounds=BND + '; strains 1e-9 apart',
         params=[dict(law=n) for n in SPECS if n not in (
             'elastic', 'elastic_limited', 'parabolarectangle_n',
             'popovics')])
def continuity(c, law):
    """No jump at interior kinks of the curve."""
    s = SPECS[law]
    p = s.draw(c)
    lim = s.limits(p)
    ks = [k for k in s.kinks(p) if not any(k is q for q in lim)]
    if law.startswith('userdefined'):
        ks = s.kinks(p)[1:-1]
    elif s.beyond == 'zero':
        ks = s.kinks(p)[:2] if law != 'sargin' and law != 'popovics' \
            else [0.0]
    if not ks:
        return
    q = ks[c.choice('kink', list(range(len(ks))))]
    L = s.make(p)
    a, b = L.get_stress(q - 1e-9), L.get_stress(q + 1e-9)
    c.le('jump', m.ab(a - b), 0.0, atol=0.01)


DEFAULTS = {
    'parabolarectangle': ('ParabolaRectangle', dict(
        e1=('eps_0', 0.002), e2=('eps_u', 0.0035), n=('n', 2))),
    'sargin': ('Sargin', dict(
        e1=('eps_c1', 0.0023), e2=('eps_cu1', 0.0035), k=('k', 2.04))),
    'popovics': ('Popovics', dict(
        e1=('eps_c', 0.002), e2=('eps_cu', 0.0035))),
}


@harness('C01', 'documented defaults', bounds='fc in [1, 150] (5 to 120 for '
         'Popovics), strain in [-0.005, 0.001]; each optional parameter left '
         'out or given a value other than its default',
         outside=OUTSIDE, params=[dict(law=n) for n in DEFAULTS])
def defaults(c, law):
    import structuralcodes.materials.constitutive_laws as LL

    cls, pars = DEFAULTS[law]
    s = SPECS[law]
    p = dict(fc=c.real('fc', *((5, 120) if law == 'popovics' else (1, 150))),
             s=1)
    kw = {}
    other = dict(e1=0.0021, e2=0.0045, n=1, k=1.9)
    for name, (arg, val) in pars.items():
        if c.choice(arg, ['left out', 'given']) == 'given':
            val = other[name]
            kw[arg] = -val if name in ('e1', 'e2') else val
        p[name] = val
    if law == 'popovics':
        p['E'] = 5000 * m.sqrt(p['fc'])
        c.assume(p['E'] > 1.05 * p['fc'] / p['e1'])
        p['n'] = p['E'] / (p['E'] - p['fc'] / p['e1'])
    L = getattr(LL, cls)(p['fc'], **kw)
    e = c.real('eps', -0.005, 0.001)
    clear_limits(c, s, p, e)
    c.eq('stress', L.get_stress(e), s.stress(p, e), atol=1e-9)
    c.eq('minimum strain', L.get_ultimate_strain()[0], -p['e2'])
