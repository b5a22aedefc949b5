"""C22, C23: concrete, reinforcement and basic materials."""

import warnings

from symx import m
from symx.harness import harness

P, Q = 'C22', 'C23'


def M():
    import structuralcodes.materials as mm
    import structuralcodes.materials.basic  # noqa: F401
    import structuralcodes.materials.concrete  # noqa: F401
    import structuralcodes.materials.constitutive_laws  # noqa: F401
    import structuralcodes.materials.reinforcement  # noqa: F401

    return mm


def L():
    return M().constitutive_laws


# ------------------------------------------------------------- code formulas


def _hi(lo, f):
    return lambda v: lo if v('fck') <= 50 else f(v('fck'))


_N = _hi(2.0, lambda f: 1.4 + 23.4 * ((90 - f) / 100) ** 4)
_C2 = _hi(2e-3, lambda f: (2 + 0.085 * m.pow(f - 50, 0.53)) / 1000)
_U2 = _hi(3.5e-3, lambda f: (2.6 + 35 * ((90 - f) / 100) ** 4) / 1000)
_C3 = _hi(1.75e-3, lambda f: (1.75 + 0.55 * (f - 50) / 40) / 1000)
_G = [12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120]
_EC1 = [-1.9, -2.0, -2.1, -2.2, -2.3, -2.3, -2.4, -2.5, -2.6, -2.6, -2.7,
        -2.7, -2.8, -2.9, -3.0, -3.0, -3.0]
_ECL = [-3.5] * 8 + [-3.4, -3.4, -3.3, -3.2, -3.1] + [-3.0] * 4
_K = [2.44, 2.36, 2.28, 2.15, 2.04, 1.92, 1.82, 1.74, 1.66, 1.61, 1.55, 1.47,
      1.41, 1.36, 1.32, 1.24, 1.18]


def _tab(ys, f):
    return lambda v: m.interp(v('fck'), _G, ys) * f


def _fctm04(v):
    f = v('fck')
    if f <= 50:
        return 0.3 * m.pow(f, 2 / 3)
    return 2.12 * m.log(1 + (f + 8) / 10)


def _fctm10(v):
    f = v('fck')
    if f <= 50:
        return 0.3 * m.cbrt(f) ** 2
    return 2.12 * m.log(1 + (f + 8) / 10)


def _fctm23(v):
    f = v('fck')
    if f <= 50:
        return 0.3 * m.cbrt(f) ** 2
    return 1.1 * m.cbrt(f)


def _ksargin(v):
    return 1.05 * v('Ecm') * v('eps_c1') / v('fcm')


COMMON = {
    'fcm': lambda v: v('fck') + 8,
    'eps_c2': _C2, 'eps_cu2': _U2, 'n_parabolic_rectangular': _N,
    'eps_c3': _C3, 'eps_cu3': _U2,
}
CODES = {
    'EC2_2004': dict(
        COMMON,
        fctm=_fctm04,
        fctk_5=lambda v: 0.7 * v('fctm'),
        fctk_95=lambda v: 1.3 * v('fctm'),
        Ecm=lambda v: 22000 * m.pow(v('fcm') / 10, 0.3),
        eps_c1=lambda v: m.mn(0.7 * m.pow(v('fcm'), 0.31), 2.8) / 1000,
        eps_cu1=lambda v: 0.0035 if v('fck') < 50 else (
            2.8 + 27 * ((98 - v('fck') - 8) / 100) ** 4) / 1000,
        k_sargin=_ksargin,
    ),
    'MC2010': dict(
        COMMON,
        fctm=_fctm10,
        fctkmin=lambda v: 0.7 * v('fctm'),
        fctkmax=lambda v: 1.3 * v('fctm'),
        Gf=lambda v: 73 * m.pow(v('fck') + 8, 0.18),
        Eci=lambda v: 21500 * m.cbrt(v('fcm') / 10),
        eps_c1=_tab(_EC1, 1e-3), eps_cu1=_tab(_ECL, 1e-3),
        k_sargin=_tab(_K, 1),
    ),
    'EC2_2023': dict(
        fcm=COMMON['fcm'],
        fctm=_fctm23,
        fctk_5=lambda v: 0.7 * v('fctm'),
        fctk_95=lambda v: 1.3 * v('fctm'),
        Ecm=lambda v: v('kE') * m.cbrt(v('fcm')),
        eps_c1=lambda v: m.mn(0.7 * m.cbrt(v('fcm')), 2.8) / 1000,
        eps_cu1=lambda v: m.mn(
            2.8 + 14 * (1 - v('fcm') / 108) ** 4, 3.5) / 1000,
        k_sargin=_ksargin,
        eps_c2=lambda v: 2e-3, eps_cu2=lambda v: 3.5e-3,
        n_parabolic_rectangular=lambda v: 2.0,
    ),
}
# plausible boxes of an override; both signs where the sign is dropped
BOX = {
    'fcm': None, 'fctm': (0.5, 5), 'fctk_5': (0.5, 5), 'fctk_95': (0.5, 5),
    'fctkmin': (0.5, 5), 'fctkmax': (0.5, 5), 'Gf': (50, 200),
    'Ecm': (15000, 60000), 'Eci': (15000, 60000), 'eps_c1': (1e-3, 3e-3),
    'eps_cu1': (3.1e-3, 5e-3), 'k_sargin': (1.1, 2.5),
    'eps_c2': (1e-3, 2.5e-3), 'eps_cu2': (2.6e-3, 5e-3),
    'n_parabolic_rectangular': (1, 2), 'eps_c3': (1e-3, 1.8e-3),
    'eps_cu3': (2.5e-3, 5e-3),
}
SIGNED = ('k_sargin', 'n_parabolic_rectangular')


class Values:
    """Formula values with the overrides in force."""

    def __init__(self, code, given):
        self.f = CODES[code]
        self.given = given
        self.memo = {}

    def __call__(self, n):
        if n in self.given:
            return self.given[n]
        if n not in self.memo:
            self.memo[n] = self.f[n](self)
        return self.memo[n]


def cls(code):
    return getattr(M().concrete, f'Concrete{code}')


def draw_override(c, n, fck, given, kw, signs):
    s = c.choice(f'sign of {n}', [1, -1]) if signs and n not in SIGNED else 1
    if n == 'fcm':
        x = fck + c.real('over fcm', 0.5, 30)
        c.assume(x >= 20)
    else:
        x = c.real(f'over {n}', *BOX[n])
    given[n] = x
    kw[n] = s * x


BOUND = ('fck in [12, 90] (either sign), one or all properties overridden '
         'with values in plausible boxes of either sign, partial factors in '
         '[1, 2]')


@harness(P, 'properties', bounds=BOUND,
         params=[dict(code=k) for k in CODES])
def properties(c, code):
    names = list(CODES[code])
    fck = c.real('fck', 12, 90)
    kw = {'fck': -fck if c.choice('negative', [False, True]) else fck,
          'name': 'x'}
    given = {'fck': fck}
    if code == 'EC2_2023':
        given['kE'] = 9500
        if c.choice('kE', ['default', 'given']) == 'given':
            kw['kE'] = given['kE'] = c.real('kE', 5000, 13000)
    over = c.choice('override', ['none', 'all'] + names)
    for n in names:
        if over in (n, 'all'):
            draw_override(c, n, fck, given, kw, over == n)
    law = L().Elastic(30000.0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = cls(code)(constitutive_law=law, **kw)
    v = Values(code, given)
    for n in names:
        c.eq(n, getattr(o, n), v(n))
    c.eq('fck', o.fck, fck)
    c.check('given law used', o.constitutive_law is law)


def law_args(code, law, o):
    """The law with the properties of the object."""
    la = L()
    E = o.Eci if code == 'MC2010' else o.Ecm
    if law == 'elastic':
        return la.Elastic(E)
    if law == 'bilinearcompression':
        return la.BilinearCompression(o.fcd(), o.eps_c3, o.eps_cu3)
    if law == 'parabolarectangle':
        return la.ParabolaRectangle(o.fcd(), o.eps_c2, o.eps_cu2,
                                    o.n_parabolic_rectangular)
    if law == 'sargin':
        return la.Sargin(o.fcm, o.eps_c1, o.eps_cu1, o.k_sargin)
    return la.Popovics(o.fcd(), o.eps_c1, o.eps_cu1, E)


LAWS = {
    'elastic': ['Ecm', 'Eci', 'fcm'],
    'bilinearcompression': ['eps_c3', 'eps_cu3', 'eps_cu2'],
    'parabolarectangle': ['eps_c2', 'eps_cu2', 'n_parabolic_rectangular',
                          'eps_cu3'],
    'sargin': ['fcm', 'eps_c1', 'eps_cu1', 'k_sargin'],
    'popovics': ['eps_c1', 'eps_cu1', 'Ecm', 'Eci', 'fcm'],
}


def factors(c, code, kw):
    """fcd of the partial factors in force."""
    g, a = 1.5, 1.0
    how = c.choice('factors', ['default', 'given'])
    if how == 'given':
        g = kw['gamma_c'] = c.real('gamma_c', 1, 2)
        if code != 'EC2_2023':
            a = kw['alpha_cc'] = c.real('alpha_cc', 0.5, 1)
    return g, a


@harness(P, 'design strength', bounds=BOUND + '; reference ages in [1, 400]',
         params=[dict(code=k) for k in CODES])
def design(c, code):
    fck = c.real('fck', 12, 90)
    kw = {'fck': fck, 'name': 'x'}
    g, a = factors(c, code, kw)
    if code != 'EC2_2023':
        o = cls(code)(**kw)
        c.eq('fcd', o.fcd(), a * fck / g)
        c.eq('gamma_c', o.gamma_c, g)
        c.eq('alpha_cc', o.alpha_cc, a)
        return
    kl = c.choice('class', ['CS', ' slow', 'CN', 'Normal', 'CR', 'rapid'])
    slow = kl.strip().lower() in ('cs', 'slow')
    o = cls(code)(strength_dev_class=kl, **kw)
    c.eq('gamma_c', o.gamma_c, g)
    c.eq('fctd default', o.fctd(), 0.8 * o.fctk_5 / g)
    c.eq('fcd default', o.fcd(), m.mn(m.cbrt(40 / fck), 1) * fck / g)
    tr, t0 = c.real('t_ref', 1, 400), c.real('t0', 1, 400)
    ref = c.real('fck_ref', 20, 60)
    early = tr <= (56 if slow else 28)
    k_tc = 1 if m.AND(early, t0 > 90) else 0.85
    k_tt = 0.8 if early else 0.7
    c.eq('fcd', o.fcd(t_ref=tr, t0=t0, fck_ref=ref),
         m.mn(m.cbrt(ref / fck), 1) * k_tc * fck / g)
    c.eq('fctd', o.fctd(t_ref=tr), k_tt * o.fctk_5 / g)


LB = ('fck one of 16, 50, 80 with the formula values, or fck in [12, 90] with '
      'all properties the law uses overridden; partial factors default or in '
      '[1, 2]; every strain in [-0.006, 0.002] off the limit')


@harness(P, 'law', bounds=LB,
         params=[dict(code=k, law=n) for k in CODES for n in LAWS
                 if (k, n) != ('EC2_2023', 'bilinearcompression')])
def law(c, code, law):
    """The law built by name is the one with exactly these properties."""
    over = c.choice('override', ['none', 'all'])
    fck = (c.choice('fck', [16, 50, 80]) if over == 'none'
           else c.real('fck', 12, 90))
    kw = {'fck': fck, 'name': 'x'}
    factors(c, code, kw)
    if over == 'all':
        for n in LAWS[law]:
            if n in CODES[code]:
                draw_override(c, n, fck, {}, kw, False)
    if law == 'parabolarectangle' and c.choice('by default', [True, False]):
        name = {}
    else:
        name = {'constitutive_law': law}
    o = cls(code)(constitutive_law=L().Elastic(1.0), **kw)
    if law == 'popovics':
        E = o.Eci if code == 'MC2010' else o.Ecm
        c.assume(E * m.ab(o.eps_c1) > 1.02 * o.fcd())
    e = c.real('eps', -0.006, 0.002)
    if law == 'sargin':
        c.assume(1 - (o.k_sargin - 2) * e / m.ab(o.eps_c1) > 0.05)
    w = law_args(code, law, o)
    o = cls(code)(**kw, **name)
    got = o.constitutive_law
    c.check('type', type(got) is type(w))
    lo, hi = got.get_ultimate_strain()
    wlo, whi = w.get_ultimate_strain()
    c.eq('lower limit', lo, wlo)
    c.eq('upper limit', hi, whi)
    if law != 'elastic':
        c.assume(m.ab(e - wlo) > 1e-5)
        c.assume(m.ab(e) > 1e-5)
    c.eq('stress', got.get_stress(e), w.get_stress(e), atol=1e-7)


@harness(P, 'refused values', bounds='fck in [12, 90]',
         params=[dict(code=k) for k in CODES])
def refused(c, code):
    fck = c.real('fck', 12, 90)
    what = c.choice('what', ['fcm', 'k_sargin', 'n_parabolic_rectangular',
                             'law', 'material', 'both']
                    + (['gamma_c', 'class', 'bilinear']
                       if code == 'EC2_2023' else []))
    kw = {'fck': fck, 'name': 'x'}
    if what == 'fcm':
        kw['fcm'] = c.real('fcm', 1, 90)
        c.assume(kw['fcm'] <= fck)
    elif what in SIGNED:
        kw[what] = c.real('v', -5, -1e-6)
    elif what == 'gamma_c':
        kw[what] = c.real('v', -2, 0)
    elif what == 'class':
        kw['strength_dev_class'] = c.choice('class', ['', 'CX', 'fast'])
    elif what == 'law':
        kw['constitutive_law'] = c.choice('name', ['', 'foo', 'userdefined',
                                                   'elasticplastic'])
    elif what == 'bilinear':
        kw['constitutive_law'] = 'bilinearcompression'
    elif what == 'material':
        kw['constitutive_law'] = L().ElasticPlastic(2e5, 400.0)
    elif what == 'both':
        kw['initial_strain'], kw['initial_stress'] = 1e-4, 1.0
    c.check('refused', c.raises(lambda: cls(code)(**kw)))


@harness(P, 'general', bounds='density in [-5000, 5000]',
         params=[dict(code=k) for k in CODES])
def general(c, code):
    d = c.real('density', -5000, 5000)
    fck = c.real('fck', 12, 90)
    o = cls(code)(fck=fck, name='abc', density=d)
    c.eq('density', o.density, m.ab(d))
    c.check('name', o.name == 'abc')
    o = cls(code)(fck=fck, name='abc')
    c.eq('default density', o.density, 2400)
    f = c.choice('fck', [20, 35.2, 49.7, 90])
    c.check('default name', cls(code)(fck=f).name == f'C{round(f)}')


# ------------------------------------------------------------- reinforcement


def rcls(code):
    return getattr(M().reinforcement, f'Reinforcement{code}')


RB = ('fyk in [200, 700], Es in [1.5e5, 2.5e5], ftk/fyk in [1, 1.4], epsuk in '
      '[0.02, 0.1], gamma_s in [1, 1.5], gamma_eps in [0.3, 1], each of '
      'either sign where the sign is dropped')


def draw_steel(c, code, signs=True):
    s = c.choice('sign', [1, -1]) if signs else 1
    fyk = c.real('fyk', 200, 700)
    ftk = fyk * c.real('ratio', 1, 1.4)
    Es, eu = c.real('Es', 1.5e5, 2.5e5), c.real('epsuk', 0.02, 0.1)
    kw = dict(fyk=s * fyk, Es=s * Es, ftk=s * ftk, epsuk=s * eu, name='x')
    g, ge = 1.15, 0.9
    if c.choice('factors', ['default', 'given']) == 'given':
        g = kw['gamma_s'] = c.real('gamma_s', 1, 1.5)
        if code != 'EC2_2023':
            ge = kw['gamma_eps'] = c.real('gamma_eps', 0.3, 1)
    if code == 'EC2_2023':
        ge = 1 / g
    v = dict(fyk=fyk, ftk=ftk, Es=Es, epsuk=eu, gamma_s=g, fyd=fyk / g,
             ftd=ftk / g, epsud=eu * ge)
    if code != 'EC2_2023':
        v['gamma_eps'] = ge
    return kw, v


def steel_law(v, law):
    la = L()
    if law == 'elastic':
        return la.Elastic(v['Es'])
    Eh = 0.0
    if law == 'elasticplastic':
        Eh = (v['ftd'] - v['fyd']) / (v['epsud'] - v['fyd'] / v['Es'])
    return la.ElasticPlastic(v['Es'], v['fyd'], Eh, v['epsud'])


RC = ['EC2_2004', 'MC2010', 'EC2_2023']
RL = ['elastic', 'elasticperfectlyplastic', 'elasticplastic']


@harness(Q, 'design values', bounds=RB, params=[dict(code=k) for k in RC])
def steel_values(c, code):
    kw, v = draw_steel(c, code)
    law = L().Elastic(2e5)
    o = rcls(code)(constitutive_law=law, **kw)
    for n in ('fyk', 'ftk', 'Es', 'epsuk', 'gamma_s') + (
            ('gamma_eps',) if 'gamma_eps' in v else ()):
        c.eq(n, getattr(o, n), v[n])
    for n in ('fyd', 'ftd', 'epsud'):
        c.eq(n, getattr(o, n)(), v[n])
    c.eq('epsyk', o.epsyk, v['fyk'] / v['Es'])
    c.eq('epsyd', o.epsyd, v['fyd'] / v['Es'])
    c.check('given law used', o.constitutive_law is law)


@harness(Q, 'law', bounds=RB + '; every strain in [-0.15, 0.15]',
         params=[dict(code=k, law=n) for k in RC for n in RL])
def steel_laws(c, code, law):
    kw, v = draw_steel(c, code, signs=False)
    if law != 'elasticplastic' or c.choice('named', [True, False]):
        kw['constitutive_law'] = law
    o = rcls(code)(**kw)
    w = steel_law(v, law)
    got = o.constitutive_law
    c.check('type', type(got) is type(w))
    for y in (False, True):
        if law == 'elastic' and y:
            continue
        a, b = got.get_ultimate_strain(yielding=y), w.get_ultimate_strain(
            yielding=y)
        c.eq(f'lower limit {y}', a[0], b[0])
        c.eq(f'upper limit {y}', a[1], b[1])
    e = c.real('eps', -0.15, 0.15)
    if law != 'elastic':
        c.assume(m.ab(m.ab(e) - v['epsud']) > 1e-5)
        c.assume(m.ab(m.ab(e) - v['fyd'] / v['Es']) > 1e-7)
        sg = got.get_stress(e)
        ey = v['fyd'] / v['Es']
        s = 1 if e > 0 else -1
        if m.ab(e) > v['epsud']:
            x = 0.0
        elif m.ab(e) <= ey:
            x = v['Es'] * e
        elif law == 'elasticplastic':
            x = s * (v['fyd'] + (v['ftd'] - v['fyd']) * (m.ab(e) - ey)
                     / (v['epsud'] - ey))
        else:
            x = s * v['fyd']
        c.eq('stress', sg, x, atol=1e-5)
    else:
        c.eq('stress', got.get_stress(e), v['Es'] * e)
    c.eq('initial modulus', got.get_tangent(0.0), v['Es'])


@harness(Q, 'hardening ends at the design tensile strength', bounds=RB,
         params=[dict(code=k) for k in RC])
def steel_end(c, code):
    kw, v = draw_steel(c, code, signs=False)
    o = rcls(code)(**kw)
    s = c.choice('side', [1, -1])
    c.eq('stress at epsud', o.constitutive_law.get_stress(s * v['epsud']),
         s * v['ftd'])


@harness(Q, 'epsuk can be set', bounds='epsuk in [-0.1, 0.1]',
         params=[dict(code=k) for k in RC])
def steel_set(c, code):
    o = rcls(code)(fyk=500, Es=2e5, ftk=550, epsuk=0.07)
    e = c.real('epsuk', -0.1, 0.1)
    o.epsuk = e
    c.eq('epsuk', o.epsuk, m.ab(e))
    c.eq('epsud', o.epsud(), m.ab(e) * (0.9 if code != 'EC2_2023'
                                        else 1 / 1.15))


@harness(Q, 'refused', bounds='fyk in [200, 700]',
         params=[dict(code=k) for k in RC])
def steel_refused(c, code):
    kw = dict(fyk=c.real('fyk', 200, 700), Es=2e5, ftk=750, epsuk=0.05,
              name='x')
    what = c.choice('what', ['law', 'material', 'both', 'factor'])
    if what == 'law':
        kw['constitutive_law'] = c.choice('name', ['', 'foo', 'sargin',
                                                   'parabolarectangle'])
    elif what == 'material':
        kw['constitutive_law'] = L().ParabolaRectangle(30.0)
    elif what == 'both':
        kw['initial_strain'], kw['initial_stress'] = 1e-4, 1.0
    else:
        kw['gamma_s'] = c.real('gamma_s', 0.1, 0.99)
    c.check('refused', c.raises(lambda: rcls(code)(**kw)))


@harness(Q, 'general', bounds='density in [-9000, 9000]',
         params=[dict(code=k) for k in RC])
def steel_general(c, code):
    d = c.real('density', -9000, 9000)
    kw = dict(fyk=500, Es=2e5, ftk=550, epsuk=0.07)
    o = rcls(code)(density=d, name='abc', **kw)
    c.eq('density', o.density, m.ab(d))
    c.check('name', o.name == 'abc')
    o = rcls(code)(**kw)
    c.eq('default density', o.density, 7850)
    c.check('default name', o.name == 'Reinforcement500')


# ------------------------------------------------------------------- basics


@harness(Q, 'basic elastic', bounds='E in [1, 1e6], ultimate strain none, a '
         'number or a pair, any strain in [-0.2, 0.2]')
def basic_elastic(c):
    E, d = c.real('E', 1, 1e6), c.real('density', -1e4, 1e4)
    how = c.choice('limits', ['none', 'number', 'pair'])
    kw = {}
    lo, hi = -100, 100
    if how == 'number':
        hi = c.real('eu', 0.001, 0.1)
        lo, kw['ultimate_strain'] = -hi, hi
    elif how == 'pair':
        lo, hi = c.real('lo', -0.1, -0.001), c.real('hi', 0.001, 0.1)
        kw['ultimate_strain'] = (lo, hi)
    o = M().basic.ElasticMaterial(E=E, density=d, **kw)
    c.eq('E', o.E, E)
    c.eq('density', o.density, m.ab(d))
    c.check('name', o.name == 'ElasticMaterial')
    e = c.real('eps', -0.2, 0.2)
    if how != 'none':
        c.assume(m.ab(e - lo) > 1e-5)
        c.assume(m.ab(e - hi) > 1e-5)
    a, b = o.constitutive_law.get_ultimate_strain()
    c.eq('lower', a, lo)
    c.eq('upper', b, hi)
    c.eq('stress', o.constitutive_law.get_stress(e), E * e)


@harness(Q, 'basic elastic-plastic', bounds='E in [1e3, 3e5], yield strain '
         'in [0.0005, 0.005], Eh/E in [0, 0.5], ultimate strain in [0.006, '
         '0.1] or none, any strain in [-0.2, 0.2]')
def basic_plastic(c):
    E, ey = c.real('E', 1e3, 3e5), c.real('ey', 0.0005, 0.005)
    fy, Eh, eu = E * ey, 0.0, None
    kw = {}
    if c.choice('hardening', [False, True]):
        Eh = kw['Eh'] = E * c.real('rh', 0, 0.5)
    if c.choice('limited', [False, True]):
        eu = kw['eps_su'] = c.real('eu', 0.006, 0.1)
    o = M().basic.ElasticPlasticMaterial(E=E, fy=fy, density=c.real(
        'density', 0, 1e4), **kw)
    for n, x in (('E', E), ('fy', fy), ('Eh', Eh)):
        c.eq(n, getattr(o, n), x)
    if eu is None:
        c.check('no eps_su', o.eps_su is None)
    else:
        c.eq('eps_su', o.eps_su, eu)
    e = c.real('eps', -0.2, 0.2)
    c.assume(m.ab(m.ab(e) - ey) > 1e-7)
    if eu is not None:
        c.assume(m.ab(m.ab(e) - eu) > 1e-5)
        if m.ab(e) > eu:
            c.eq('stress', o.constitutive_law.get_stress(e), 0.0)
            return
    else:
        c.assume(m.ab(m.ab(e) - 2 * ey) > 2e-5)
    s = 1 if e > 0 else -1
    x = E * e if m.ab(e) < ey else s * (fy + Eh * (m.ab(e) - ey))
    c.eq('stress', o.constitutive_law.get_stress(e), x, atol=1e-7)


@harness(Q, 'elastic from another material', bounds='fck in [12, 90], steel '
         'E in [1e5, 2.5e5]')
def from_material(c):
    kind = c.choice('of', ['parabola', 'sargin', 'elastic concrete', 'steel',
                           'elastic', 'prestressed'])
    cc, rr, bb = M().concrete, M().reinforcement, M().basic
    E = c.real('E', 1e5, 2.5e5)
    fck = c.real('fck', 12, 90)
    if kind == 'steel':
        o, x = rr.ReinforcementEC2_2004(500, E, 550, 0.07, name='q'), E
    elif kind == 'prestressed':
        o, x = rr.ReinforcementEC2_2004(500, E, 550, 0.07, name='q',
                                        initial_strain=0.001), E
    elif kind == 'elastic':
        o, x = bb.ElasticMaterial(E, 1234, name='q'), E
    elif kind == 'elastic concrete':
        o = cc.ConcreteMC2010(fck, constitutive_law='elastic', name='q')
        x = 21500 * m.cbrt((fck + 8) / 10)
    elif kind == 'sargin':
        o = cc.ConcreteEC2_2023(fck, constitutive_law='sargin', name='q')
        x = o.constitutive_law.get_tangent(0.0)
    else:
        o = cc.ConcreteEC2_2004(fck, name='q')
        x = o.constitutive_law.get_tangent(0.0)
    n = bb.ElasticMaterial.from_material(o)
    c.eq('E', n.E, x)
    c.eq('density', n.density, o.density)
    c.check('name', n.name == 'q_elastic')
    e = c.real('eps', -0.1, 0.1)
    c.eq('stress', n.constitutive_law.get_stress(e), x * e, atol=1e-7)
    c.check('other material unchanged', o.name == 'q')


# -------------------------------------------------- initial strain and stress


def make_prestressed(c, kind, **kw):
    """A material of a kind with initial strain or stress, and its law."""
    la, mm = L(), M()
    if kind == 'EC2_2004 steel' or kind == 'MC2010 steel' or (
            kind == 'EC2_2023 steel'):
        k = kind.split()[0]
        args = dict(fyk=500.0, Es=2e5, ftk=550.0, epsuk=0.05, name='x')
        return (rcls(k)(**args, **kw),
                rcls(k)(**args).constitutive_law)
    if kind.endswith('concrete'):
        k = kind.split()[0]
        return cls(k)(fck=30.0, **kw), cls(k)(fck=30.0).constitutive_law
    if kind == 'elastic':
        return (mm.basic.ElasticMaterial(1e4, 100, **kw), la.Elastic(1e4))
    if kind == 'elasticplastic':
        return (mm.basic.ElasticPlasticMaterial(1e5, 250.0, 100, Eh=1e3,
                                                eps_su=0.05, **kw),
                la.ElasticPlastic(1e5, 250.0, 1e3, 0.05))
    w = la.ElasticPlastic(1e5, 250.0, 1e3, 0.05)
    return mm.basic.GenericMaterial(100, w, **kw), w


KINDS = ['EC2_2004 steel', 'MC2010 steel', 'EC2_2023 steel',
         'EC2_2004 concrete', 'MC2010 concrete', 'EC2_2023 concrete',
         'elastic', 'elasticplastic', 'generic']


@harness(Q, 'initial strain', bounds='initial strain in [-0.002, 0.004], '
         'any strain in [-0.06, 0.06]; fixed base material',
         params=[dict(kind=k) for k in KINDS])
def initial_strain(c, kind):
    e0 = c.real('initial strain', -0.002, 0.004)
    kw = {'initial_strain': e0}
    comp = c.choice('compatibility', [None, True, False])
    if comp is not None:
        kw['strain_compatibility'] = comp
    o, w = make_prestressed(c, kind, **kw)
    s0 = w.get_stress(e0)
    c.eq('initial strain', o.initial_strain, e0)
    c.eq('initial stress', o.initial_stress, s0, atol=1e-9)
    c.check('compatibility kept', o.strain_compatibility is comp)
    e = c.real('eps', -0.06, 0.06)
    lo, hi = w.get_ultimate_strain()
    x = e + e0
    for k in (lo, hi):
        c.assume(m.ab(x - k) > 1e-5)
        c.assume(m.ab(e - k) > 1e-5)
    got = o.constitutive_law.get_stress(e)
    c.eq('stress', got, s0 if comp is False else w.get_stress(x), atol=1e-9)
    if comp is not False:
        a, b = o.constitutive_law.get_ultimate_strain()
        c.eq('lower', a, lo - e0)
        c.eq('upper', b, hi - e0)
    c.eq('stress at zero', o.constitutive_law.get_stress(0.0), s0, atol=1e-9)


@harness(Q, 'initial stress', bounds='initial stress reached on the elastic '
         'or (for concrete) parabolic branch within the Newton iterations of '
         'the code; fixed base material',
         stubs=('round-off tolerance of the iteration',),
         params=[dict(kind=k) for k in KINDS if 'concrete' not in k])
def initial_stress(c, kind):
    """The strain found gives the requested stress."""
    lim = {'elastic': 500, 'elasticplastic': 240, 'generic': 240}.get(
        kind, 420)
    s0 = c.real('initial stress', -lim, lim)
    c.assume(m.ab(s0) > 1e-3)
    comp = c.choice('compatibility', [None, False])
    kw = {} if comp is None else {'strain_compatibility': comp}
    o, w = make_prestressed(c, kind, initial_stress=s0, **kw)
    c.eq('initial stress', o.initial_stress, s0)
    c.eq('stress of the initial strain', w.get_stress(o.initial_strain), s0)
    c.eq('stress at zero', o.constitutive_law.get_stress(0.0), s0)
    e = c.real('eps', -0.02, 0.02)
    x = e + o.initial_strain
    lo, hi = w.get_ultimate_strain()
    for k in (lo, hi):
        c.assume(m.ab(x - k) > 1e-5)
    c.eq('stress', o.constitutive_law.get_stress(e),
         s0 if comp is False else w.get_stress(x), atol=1e-7)


@harness(Q, 'initial stress beyond yield', bounds='initial stress within '
         'the hardening range; fixed hardening law')
def initial_stress_hard(c):
    s0 = c.real('initial stress', 251, 290)
    s = c.choice('sign', [1, -1])
    o, w = make_prestressed(c, 'elasticplastic', initial_stress=s * s0)
    c.eq('strain', o.initial_strain, s * (0.0025 + (s0 - 250) / 1e3),
         rtol=1e-6)
    c.eq('stress at zero', o.constitutive_law.get_stress(0.0), s * s0)


@harness(Q, 'unreachable initial stress', bounds='stress beyond the strength '
         'of a fixed law')
def initial_stress_bad(c):
    s0 = c.real('initial stress', 500, 5000)
    s = c.choice('sign', [1, -1])
    k = c.choice('kind', KINDS[:6])
    c.check('refused', c.raises(
        lambda: make_prestressed(c, k, initial_stress=s * s0),
        exc=(ValueError, RuntimeError)))
