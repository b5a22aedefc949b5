"""C04, C05: integration coefficients of the laws; wrapper laws."""

import numpy as np

from symx import m
from symx.harness import harness

from .lawspec import EXTRA, arr, off
from .lawspec import SPECS as _SPECS
from .laws import BND, abs_lt, clear_limits

SPECS = {**_SPECS, **EXTRA}
POLY = [n for n, s in _SPECS.items() if s.poly]
KIND = ['stress', 'tangent']
OUT = 'strains within 1e-5 of a kink or limit of the law'


def coefs(L, kind, strain):
    f = L.__marin__ if kind == 'stress' else L.__marin_tangent__
    return f(strain=strain)


def poly(co, y):
    t, p = 0.0, 1.0
    for a in co:
        t = t + a * p
        p = p * y
    return t


def pieces(c, name, res, eps, y, exp, **tol):
    """The piece at strain eps evaluates to exp, no piece means zero."""
    strains, co = res
    if strains is None:
        c.check(f'{name}: one set of coefficients', len(co) == 1)
        c.eq(f'{name}: value', poly(co[0], y), exp, **tol)
        return
    c.check(f'{name}: a set of coefficients per piece',
            len(co) == len(strains))
    hit = [k for k, (a, b) in enumerate(strains)
           if m.AND(m.mn(a, b) <= eps, eps <= m.mx(a, b))]
    c.check(f'{name}: pieces do not overlap', len(hit) <= 1)
    c.eq(f'{name}: value', poly(co[hit[0]], y) if hit else 0.0, exp, **tol)


def ref(s, kind):
    return s.stress if kind == 'stress' else s.tangent


def draw_profile(c, span):
    """A strain e0 + k*y with position y; k > 0, k < 0 or k = 0."""
    how = c.choice('curvature', ['zero', 'positive', 'negative'])
    if how == 'zero':
        e0 = c.real('eps0', *span)
        return e0, 0.0, c.real('y', -500, 500), e0
    k = c.real('kappa', 1e-8, 1e-3)
    k = k if how == 'positive' else -k
    y = c.real('y', -500, 500)
    eps = c.real('eps', *span)
    return eps - k * y, k, y, eps


@harness('C04', 'pieces', bounds='strain at the position anywhere in the '
         'span, curvature 0 or 1e-8 to 1e-3 of either sign, position in '
         '[-500, 500]; ' + BND, outside=OUT,
         params=[dict(law=n, kind=k) for n in POLY for k in KIND])
def law_pieces(c, law, kind):
    s = SPECS[law]
    p = s.draw(c)
    e0, k, y, eps = draw_profile(c, s.span)
    off(c, eps, s.kinks(p))
    clear_limits(c, s, p, eps)
    if law == 'elasticplastic_nolimit':
        # beyond twice the yield strain: known finding, see below
        c.assume(m.ab(eps) < 2 * p['ey'])
    as_tuple = c.choice('tuple', [True, False])
    st = (e0, k) if as_tuple else [e0, k]
    res = coefs(s.make(p), kind, st)
    pieces(c, kind, res, eps, y, ref(s, kind)(p, eps), atol=1e-7)
    c.eq('profile unchanged', st[0], e0, rtol=1e-12)


@harness('C04', 'elastic-plastic without ultimate strain, beyond twice the '
         'yield strain', bounds=SPECS['elasticplastic_nolimit'].bounds,
         params=[dict(kind=k) for k in KIND])
def nolimit(c, kind):
    s = SPECS['elasticplastic_nolimit']
    p = s.draw(c)
    e0, k, y, eps = draw_profile(c, s.span)
    c.assume(m.ab(eps) > 2.01 * p['ey'])
    pieces(c, kind, coefs(s.make(p), kind, (e0, k)), eps, y,
           ref(s, kind)(p, eps), atol=1e-7)


@harness('C04', 'pieces span the limits', bounds=BND,
         params=[dict(law=n) for n in POLY])
def span(c, law):
    """The pieces are contiguous and reach the strain limits."""
    s = SPECS[law]
    p = s.draw(c)
    L = s.make(p)
    k = c.real('kappa', 1e-8, 1e-3)
    strains, co = coefs(L, c.choice('kind', KIND), (c.real('e', -0.01, 0.01),
                                                    k))
    if strains is None:
        return
    iv = [(m.mn(a, b), m.mx(a, b)) for a, b in strains]
    lo, hi = L.get_ultimate_strain()
    c.eq('lowest strain', m.mn([a for a, _ in iv]),
         p['X'][0] * 100 if p.get('flag') else lo)
    top = p['X'][-1] * (100 if p.get('flag') else 1) if 'X' in p else hi
    if abs_lt(top):
        c.eq('highest strain', m.mx([b for _, b in iv]), top)
    tot = 0.0
    for a, b in iv:
        tot = tot + (b - a)
    c.eq('no gaps', tot, m.mx([b for _, b in iv]) - m.mn(
        [a for a, _ in iv]))


@harness('C04', 'uniform strain at a limit or kink', bounds=BND,
         params=[dict(law=n) for n in POLY])
def uniform_kink(c, law):
    s = SPECS[law]
    p = s.draw(c)
    ks = [0.0] + s.kinks(p)
    e = ks[c.choice('kink', list(range(len(ks))))]
    strains, co = coefs(s.make(p), 'stress', (e, 0.0))
    pieces(c, 'stress', (strains, co), e, c.real('y', -500, 500),
           s.stress(p, e), atol=1e-6)


@harness('C04', 'uniform strain close to a limit', bounds='strain within '
         '4e-8 of an ultimate strain; ' + BND,
         params=[dict(law=n) for n in POLY])
def uniform_limit(c, law):
    s = SPECS[law]
    p = s.draw(c)
    L = s.make(p)
    lim = L.get_ultimate_strain()[c.choice('limit', [0, 1])]
    if not abs_lt(lim):
        return
    e = lim + c.real('beyond', -4e-8, 4e-8)
    if law == 'elasticplastic_nolimit':
        c.assume(m.ab(e) < 2 * p['ey'])
    y = c.real('y', -500, 500)
    strains, co = coefs(L, 'stress', (e, 0.0))
    c.eq('the stress of the law', poly(co[0], y), L.get_stress(e),
         atol=1e-6)


DISC = {
    'ParabolaRectangle(n=1.5)':
        lambda L: L.ParabolaRectangle(30.0, -0.0022, -0.0034, 1.5),
    'ParabolaRectangle(n=1.75)':
        lambda L: L.ParabolaRectangle(60.0, 0.0023, 0.0029, 1.75),
    'Sargin': lambda L: L.Sargin(38.0, -0.0022, -0.0035, 2.1),
    'Sargin(high)': lambda L: L.Sargin(98.0, -0.0028, -0.0028, 1.4),
    'Popovics': lambda L: L.Popovics(33.0),
    'Popovics(high)': lambda L: L.Popovics(80.0, -0.0025, -0.003, 40000.0),
}


@harness('C04', 'discretised laws', params=[dict(law=n) for n in DISC],
         bounds='fixed parameters of the law, any profile with strain '
         'in [-0.006, 0.003]; the pieces are those of a polyline through '
         'the stresses of the law')
def discretised(c, law):
    import structuralcodes.materials.constitutive_laws as LL

    L = DISC[law](LL)
    lo, _ = L.get_ultimate_strain()
    e0, k, y, eps = draw_profile(c, (-0.006, 0.003))
    off(c, eps, [lo, 0.0])
    res = coefs(L, 'stress', (e0, k))
    if k == 0.0:
        # the piece that uniform strain selects is the one of a profile
        strains, co = coefs(L, 'stress', (e0 - 1e-4 * y, 1e-4))
    else:
        strains, co = res
    c.check('at least eight pieces', len(strains) >= 8)
    c.check('straight pieces', all(len(q) == 2 for q in co))
    iv = [tuple(sorted(v)) for v in strains]
    c.eq('lowest strain', min(a for a, _ in iv), lo)
    c.check('contiguous', all(
        abs(b[0] - a[1]) < 1e-12 for a, b in zip(sorted(iv), sorted(iv)[1:])))
    hit = [j for j, (a, b) in enumerate(iv) if a <= eps <= b]
    if not hit:
        c.check('outside the limits', m.OR(eps < lo, eps > 0))
        if k == 0.0:
            c.eq('uniform: no stress', poly(res[1][0], y), 0.0, atol=1e-9)
        return
    a, b = iv[hit[0]]
    fa, fb = float(L.get_stress(a)), float(L.get_stress(b))
    exp = fa + (fb - fa) / (b - a) * (eps - a)
    got = poly(res[1][0] if k == 0.0 else co[hit[0]], y)
    c.eq('chord of the law', got, exp, atol=1e-6)
    t = coefs(L, 'tangent', (e0, k))
    tv = poly(t[1][0] if k == 0.0 else t[1][hit[0]], y)
    c.eq('tangent of the chord', tv, (fb - fa) / (b - a))


# ------------------------------------------------------------ wrappers

BASE = ['elastic', 'elasticplastic', 'bilinear', 'parabolarectangle',
        'userdefined_small']
IB = 'initial strain in [-0.01, 0.01], base laws: ' + BND


def wrap(c, s, p, comp=True):
    import structuralcodes.materials.constitutive_laws as LL

    i0 = c.real('init', -0.01, 0.01)
    return i0, LL.InitialStrain(s.make(p), i0, comp)


@harness('C05', 'initial strain', bounds=IB, outside=OUT,
         params=[dict(law=n) for n in BASE])
def initial(c, law):
    s = SPECS[law]
    p = s.draw(c)
    i0, W = wrap(c, s, p)
    e = c.real('eps', *s.span)
    clear_limits(c, s, p, e + i0)
    c.eq('stress', W.get_stress(e), s.stress(p, e + i0), atol=1e-9)
    c.eq('stress of an array', W.get_stress(arr(c, [e]))[0],
         s.stress(p, e + i0), atol=1e-9)
    c.eq('stress of a list', W.get_stress([e])[0],
         s.stress(p, e + i0), atol=1e-9)
    off(c, e + i0, s.kinks(p))
    c.eq('tangent', W.get_tangent(e), s.tangent(p, e + i0), atol=1e-9)
    c.eq('tangent of an array', W.get_tangent(arr(c, [e]))[0],
         s.tangent(p, e + i0), atol=1e-9)
    y = c.choice('yielding', [False, True])
    lo, hi = W.get_ultimate_strain(yielding=y)
    a, b = s.limits(p, y)
    c.eq('minimum strain', lo, a - i0)
    c.eq('maximum strain', hi, b - i0)


@harness('C05', 'initial strain, coefficients', bounds=IB, outside=OUT,
         params=[dict(law=n, kind=k) for n in BASE for k in KIND])
def initial_marin(c, law, kind):
    s = SPECS[law]
    p = s.draw(c)
    i0, W = wrap(c, s, p)
    e0, k, y, eps = draw_profile(c, s.span)
    off(c, eps + i0, s.kinks(p))
    clear_limits(c, s, p, eps + i0)
    pieces(c, kind, coefs(W, kind, (e0, k)), eps, y,
           ref(s, kind)(p, eps + i0), atol=1e-7)


@harness('C05', 'initial strain without compatibility', bounds=IB,
         outside=OUT, params=[dict(law=n) for n in BASE])
def initial_free(c, law):
    s = SPECS[law]
    p = s.draw(c)
    i0, W = wrap(c, s, p, False)
    clear_limits(c, s, p, i0)
    st = s.stress(p, i0)
    e0, k, y, eps = draw_profile(c, s.span)
    c.eq('stress', W.get_stress(eps), st, atol=1e-9)
    got = W.get_stress(arr(c, [eps, 0.0011]))
    c.check('shape', np.shape(got) == (2,))
    c.eq('stress of an array', got[0], st, atol=1e-9)
    c.eq('stress of an array', got[1], st, atol=1e-9)
    pieces(c, 'coefficients', coefs(W, 'stress', (e0, k)), eps, y, st,
           atol=1e-9)
    t = W.get_tangent(arr(c, [eps, 0.0011]))
    c.check('shape of tangents', np.shape(t) == (2,))
    # (numerically regularised) no stiffness
    bound = 1e-5 * s.tangent(p, 0.0)
    c.le('tangent', m.ab(t[1]), m.ab(bound), atol=1e-9)
    c.le('tangent', m.ab(W.get_tangent(eps)), m.ab(bound), atol=1e-9)
    tc = coefs(W, 'tangent', (e0, k))
    c.check('one set of tangent coefficients', tc[0] is None)
    c.le('tangent coefficient', m.ab(poly(tc[1][0], y)), m.ab(bound),
         atol=1e-9)


@harness('C05', 'wrappers of wrappers', bounds='an initial strain in '
         '[-0.01, 0.01] and one of -0.0013, each with or without compatibility, and parallel '
         'laws of initial strains and the reverse; ' + BND, outside=OUT,
         params=[dict(law=n, kind=k)
                 for n in ('elastic', 'bilinear')
                 for k in KIND])
def nested(c, law, kind):
    import structuralcodes.materials.constitutive_laws as LL

    s = SPECS[law]
    p = s.draw(c)
    base = s.make(p)
    how = c.choice('how', ['initial of initial', 'initial of parallel',
                           'parallel of initial', 'parallel of parallel'])
    i, j, w = c.real('init', -0.01, 0.01), -0.0013, 1.5
    free = None
    if how == 'initial of initial':
        inner, outer = c.choice('compatible', [
            (True, True), (False, True), (True, False)])
        W = LL.InitialStrain(LL.InitialStrain(base, i, inner), j, outer)
        shift, f = i + j, 1
        if not inner:
            free = i
        elif not outer:
            free = i + j
    elif how == 'initial of parallel':
        W = LL.InitialStrain(LL.Parallel([base, base], [1, w]), i)
        shift, f = i, 1 + w
    elif how == 'parallel of initial':
        one = LL.InitialStrain(base, i)
        W = LL.Parallel([one, one], [1, w])
        shift, f = i, 1 + w
    else:
        W = LL.Parallel([LL.Parallel([base, base], [w, w]), base])
        shift, f = 0, 1 + 2 * w
    e0, k, y, eps = draw_profile(c, s.span)
    at = eps + shift if free is None else free
    if kind == 'stress':
        want = f * s.stress(p, at)
    else:
        want = f * s.tangent(p, at)
    clear_limits(c, s, p, at)
    off(c, at, s.kinks(p))
    if free is not None and kind == 'tangent':
        # (numerically regularised) no stiffness
        c.le('tangent', m.ab(W.get_tangent(eps)), 1.0)
        return
    got = W.get_stress(eps) if kind == 'stress' else W.get_tangent(eps)
    c.eq('value', got, want, atol=1e-7)
    pieces(c, kind, coefs(W, kind, (e0, k)), eps, y, want, atol=1e-6)
    if free is None:
        lo, hi = W.get_ultimate_strain()
        a, b = s.limits(p, False)
        c.eq('minimum strain', lo, a - shift)
        c.eq('maximum strain', hi, b - shift)


PAIRS = [('elastic', 'elastic_limited'), ('elasticplastic', 'bilinear'),
         ('parabolarectangle', 'elasticperfectlyplastic'),
         ('userdefined_small', 'bilinear'), ('bilinear', 'bilinear')]
PB = 'weights in [-2, 5] or default; ' + BND


class Sub:
    """Prefixes the input names of the second law."""

    def __init__(self, c, pre):
        self._c, self._p = c, pre

    def __getattr__(self, k):
        v = getattr(self._c, k)
        if k in ('real', 'choice'):
            return lambda n, *a: v(self._p + n, *a)
        return v


def parallel(c, a, b):
    import structuralcodes.materials.constitutive_laws as LL

    sa, sb = SPECS[a], SPECS[b]
    pa, pb = sa.draw(c), sb.draw(Sub(c, 'b_'))
    if c.choice('weights', ['given', 'default']) == 'given':
        w = [c.real('w1', -2, 5), c.real('w2', -2, 5)]
        L = LL.Parallel([sa.make(pa), sb.make(pb)], w)
    else:
        w = [1.0, 1.0]
        L = LL.Parallel([sa.make(pa), sb.make(pb)])
    return sa, sb, pa, pb, w, L


PP = [dict(a=a, b=b) for a, b in PAIRS]


@harness('C05', 'parallel', bounds=PB, params=PP, outside=OUT)
def par(c, a, b):
    sa, sb, pa, pb, w, L = parallel(c, a, b)
    e = c.real('eps', -0.02, 0.02)
    for s, p in ((sa, pa), (sb, pb)):
        clear_limits(c, s, p, e)
        off(c, e, s.kinks(p))
    st = w[0] * sa.stress(pa, e) + w[1] * sb.stress(pb, e)
    tg = w[0] * sa.tangent(pa, e) + w[1] * sb.tangent(pb, e)
    c.eq('stress', L.get_stress(e), st, atol=1e-7)
    c.eq('tangent', L.get_tangent(e), tg, atol=1e-7)
    c.eq('stress of an array', L.get_stress(arr(c, [e]))[0], st, atol=1e-7)
    c.eq('tangent of a list', L.get_tangent([e])[0], tg, atol=1e-7)


@harness('C05', 'parallel, limits', bounds=PB, params=PP)
def par_limits(c, a, b):
    sa, sb, pa, pb, w, L = parallel(c, a, b)
    y = c.choice('yielding', [False, True])
    lo, hi = L.get_ultimate_strain(yielding=y)
    la, lb = sa.limits(pa, y), sb.limits(pb, y)
    c.eq('minimum strain', lo, m.mn(la[0], lb[0]))
    c.eq('maximum strain', hi, m.mx(la[1], lb[1]))


def par_coefs(c, a, b, kind, inside=False):
    sa, sb, pa, pb, w, L = parallel(c, a, b)
    e0, k, y, eps = draw_profile(c, (-0.02, 0.02))
    for s, p in ((sa, pa), (sb, pb)):
        off(c, eps, s.kinks(p))
        clear_limits(c, s, p, eps)
    if inside:
        lo, hi = sb.limits(pb)
        c.assume(m.AND(lo < eps, eps < (0.0 if not abs_lt(hi) else hi)))
    exp = w[0] * ref(sa, kind)(pa, eps) + w[1] * ref(sb, kind)(pb, eps)
    pieces(c, kind, coefs(L, kind, (e0, k)), eps, y, exp, atol=1e-6)


@harness('C05', 'parallel, coefficients', bounds=PB, outside=OUT,
         params=[dict(a=a, b=b, kind=k) for a, b in PAIRS for k in KIND])
def par_marin(c, a, b, kind):
    par_coefs(c, a, b, kind)


def own_piece(c, L, kind, prof, eps, y):
    """Value at strain eps of the coefficients of one law."""
    strains, co = coefs(L, kind, prof)
    if strains is None:
        return poly(co[0], y)
    hit = [j for j, (a, b) in enumerate(strains)
           if m.AND(m.mn(a, b) <= eps, eps <= m.mx(a, b))]
    return poly(co[hit[0]], y) if hit else 0.0


@harness('C05', 'parallel with discretised laws',
         params=[dict(law=n, kind=k) for n in DISC for k in KIND],
         bounds='fixed parameters of the two laws, weights in [-2, 5], any '
         'profile with strain in [-0.006, 0.003]', outside=OUT)
def par_discretised(c, law, kind):
    import structuralcodes.materials.constitutive_laws as LL

    A, B = DISC[law](LL), LL.ElasticPlastic(20000.0, 12.0, 300.0, 0.0021)
    w = [c.real('w1', -2, 5), c.real('w2', -2, 5)]
    order = c.choice('order', [0, 1])
    laws = [(A, w[0]), (B, w[1])]
    laws = laws[::-1] if order else laws
    P = LL.Parallel([q for q, _ in laws], [v for _, v in laws])
    e0, k, y, eps = draw_profile(c, (-0.006, 0.003))
    kinks = [float(v) for q in (A, B) for v in
             np.ravel(coefs(q, 'stress', (0.0, 1.0))[0])]
    off(c, eps, kinks)
    if k == 0.0:
        # under uniform strain every law selects its own piece
        exp = w[0] * poly(coefs(A, kind, (e0, k))[1][0], y) + \
            w[1] * poly(coefs(B, kind, (e0, k))[1][0], y)
    else:
        exp = w[0] * own_piece(c, A, kind, (e0, k), eps, y) + \
            w[1] * own_piece(c, B, kind, (e0, k), eps, y)
    pieces(c, kind, coefs(P, kind, (e0, k)), eps, y, exp, atol=1e-6)


@harness('C05', 'parallel with an unlimited law, inside the limits of the '
         'other', bounds=PB, outside=OUT,
         params=[dict(b=b, kind=k) for b in ('elasticplastic', 'bilinear')
                 for k in KIND])
def par_unlimited_inside(c, b, kind):
    par_coefs(c, 'elastic', b, kind, inside=True)


@harness('C05', 'parallel with an unlimited law, anywhere', bounds=PB,
         outside=OUT)
def par_unlimited(c):
    par_coefs(c, 'elastic', 'bilinear', 'stress')


@harness('C05', 'inconsistent definitions are refused',
         bounds='one to three laws and weights')
def refused(c):
    import structuralcodes.materials.constitutive_laws as LL

    n, k = c.choice('laws', [1, 2, 3]), c.choice('weights', [1, 2, 3])
    laws = [LL.Elastic(100.0 * (i + 1)) for i in range(n)]
    w = [c.real(f'w{i}', -2, 5) for i in range(k)]
    bad = c.raises(lambda: LL.Parallel(laws, w))
    c.check('weights and laws have the same number', bad == (n != k))
    c.check('only laws can be wrapped', c.raises(
        lambda: LL.InitialStrain(c.choice('x', ['law', 1.0, None]), 0.1),
        exc=TypeError))
    c.check('only laws can be combined', c.raises(
        lambda: LL.Parallel([laws[0], 'law']), exc=TypeError))
