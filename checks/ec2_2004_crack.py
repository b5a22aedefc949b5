"""EN 1992-1-1:2004 section 7.3 and EN 1992-3 annex M: crack control."""

import numpy as np

from symx import m
from symx.diff import OUT, REJECT, D, diff
from symx.harness import harness

P = 'C28'
E = 'codes.ec2_2004.'


def neg(*a):
    return any(x < 0 for x in a)


_ALL = ['X0', 'XC1', 'XC2', 'XC3', 'XC4', 'XD1', 'XD2', 'XS1', 'XS2', 'XS3']


def w_max(exposure_class, load_combination):
    e = exposure_class.strip().upper()
    q = load_combination.strip().lower()
    if q not in ('f', 'qp') or e not in _ALL:
        return REJECT
    if q == 'f':
        return 0.2 if e in _ALL[:5] else REJECT
    return 0.4 if e in ('X0', 'XC1') else 0.3


diff(P, E + 'w_max', w_max, exposure_class=_ALL + [' xc2 ', 'xs3', 'XA1', ''],
     load_combination=['f', 'qp', 'F', ' QP ', 'x', ''])


def As_min(A_ct, sigma_s, fct_eff, k, kc):
    if A_ct <= 0 or sigma_s < 0 or k < 0.65 or k > 1 or kc > 1 or kc < 0:
        return REJECT
    if sigma_s == 0:
        return OUT
    return kc * k * m.ab(fct_eff) * A_ct / sigma_s


_AS = dict(A_ct=(-100, 1e6), sigma_s=(-10, 500), fct_eff=(0, 6),
           k=(0.4, 1.3), kc=(-0.2, 1.2))
diff(P, E + 'As_min', As_min, **_AS)
diff(P, E + 'k', lambda h: REJECT if h < 0 else m.interp(
    h, [300, 800], [1, 0.65]), h=(-100, 2000))
diff(P, E + 'kc_tension', lambda: 1)


def kc_rect(h, b, fct_eff, N_ed):
    if h < 0 or b < 0:
        return REJECT
    if h < 1 or b < 1:
        return OUT
    hs = m.mn(h, 1000)
    k1 = 1.5 if N_ed >= 0 else 2 * hs / (3 * h)
    sc = N_ed * 1000 / (b * h)
    return m.mn(m.mx(0.4 * (1 - sc / (k1 * h / hs * fct_eff)), 0), 1)


diff(P, E + 'kc_rect_area', kc_rect, h=(-100, 3000), b=(-100, 3000),
     fct_eff=(0.5, 6), N_ed=(-5000, 5000))
diff(P, E + 'kc_flanges_area', lambda f_cr, A_ct, fct_eff: m.mx(
    0.9 * m.ab(f_cr) * 1000 / A_ct / fct_eff, 0.5),
     f_cr=(-1e4, 1e4), A_ct=(1e3, 1e6), fct_eff=(0.5, 6))


def xi1(xi, phi_p, phi_s):
    if phi_p <= 0 or phi_s < 0 or xi < 0.15 or xi > 0.8:
        return REJECT
    if phi_s > 0:
        return m.sqrt(xi * phi_s / phi_p)
    return m.sqrt(xi)


diff(P, E + 'xi1', xi1, xi=(0.05, 1), phi_p=(-5, 60), phi_s=(-5, 60))


def hc_eff(h, d, x):
    if h < 0 or d < 0 or x < 0 or d > h or x > h:
        return REJECT
    return m.mn(2.5 * (h - d), (h - x) / 3, h / 2)


diff(P, E + 'hc_eff', hc_eff, h=(-100, 3000), d=(-100, 3000),
     x=(-100, 3000))


def As_min_p(A_ct, sigma_s, fct_eff, k, kc, Ap, phi_s, phi_p, xi, delta_s):
    if Ap < 0 or delta_s < 0:
        return REJECT
    a = As_min(A_ct, sigma_s, fct_eff, k, kc)
    if a is OUT or a is REJECT:
        return a
    x = xi1(xi, phi_p, phi_s)
    if x is REJECT:
        return x
    return a - x * Ap * delta_s / sigma_s


diff(P, E + 'As_min_p', As_min_p, **_AS, Ap=(-10, 1e4), phi_s=(-5, 60),
     phi_p=(1, 60), xi=(0.1, 0.9), delta_s=(-10, 500),
     hk=dict(budget=40))

# Tables 7.2N and 7.3N
_S_PHI = (160, 200, 240, 280, 320, 360, 400, 450)
_PHI = {0.4: (40, 32, 20, 16, 12, 10, 8, 6),
        0.3: (32, 25, 16, 12, 10, 8, 6, 5),
        0.2: (25, 16, 12, 8, 6, 5, 4, None)}
_S_SPA = (160, 200, 240, 280, 320, 360)
_SPA = {0.4: (300, 300, 250, 200, 150, 100),
        0.3: (300, 250, 200, 150, 100, 50),
        0.2: (200, 150, 100, 50, None, None)}


def _call(c, wk, s, **kw):
    from structuralcodes.codes.ec2_2004 import As_min_2

    f = c.real('fct_eff', 0.5, 6)
    h_cr = c.real('h_cr', 10, 3000)
    h = c.real('h', 100, 3000)
    cov = c.real('h-d', 10, 90)
    ds = 0
    if c.choice('delta_s?', ['given', 'default']) == 'given':
        ds = c.real('delta_s', 0, 300)
        kw['delta_s'] = ds
    kc = None
    if c.choice('kc?', ['given', 'default']) == 'given':
        kc = kw['kc'] = c.real('kc', 0, 1)
    if kc is None:
        fac = f / 2.9 * h_cr / (8 * cov)
    else:
        fac = f / 2.9 * kc * h_cr / (2 * cov)
    return fac, (lambda: As_min_2(
        wk=wk, sigma_s=s + ds, fct_eff=f, h_cr=h_cr, h=h, d=h - cov, **kw))


@harness(P, 'As_min_2(tabulated)', bounds='wk and sigma_s - delta_s on the '
         'grid of tables 7.2N and 7.3N; h_cr in [10, 3000], h in [100, '
         '3000], h-d in [10, 90], fct_eff in [0.5, 6], kc in [0, 1]')
def as_min_2_nodes(c):
    wk = c.choice('wk', [0.4, 0.3, 0.2])
    i = c.choice('row', list(range(8)))
    s = _S_PHI[i]
    fac, f = _call(c, wk, s)
    phi = _PHI[wk][i]
    spa = _SPA[wk][i] if i < 6 else None
    if phi is None or spa is None:
        c.check('stresses outside the tables are rejected', c.raises(f))
        return
    r = f()
    c.eq('bar diameter', r[0], phi * fac, rtol=1e-5)
    c.eq('bar spacing', r[1], spa, rtol=1e-5)


@harness(P, 'As_min_2(between)', bounds='as above, stress between two '
         'tabulated values for wk on the grid; any wk strictly between '
         'columns', budget=40)
def as_min_2_between(c):
    wk = c.choice('wk', [0.4, 0.3, 0.2])
    n = 5 if wk > 0.25 else 3
    i = c.choice('row', list(range(n)))
    s = c.real('s', _S_PHI[i] + 0.5, _S_PHI[i + 1] - 0.5)
    fac, f = _call(c, wk, s)
    r = f()
    t = (s - _S_PHI[i]) / (_S_PHI[i + 1] - _S_PHI[i])
    c.eq('bar diameter',
         r[0], fac * (_PHI[wk][i] * (1 - t) + _PHI[wk][i + 1] * t),
         rtol=1e-4)
    c.eq('bar spacing', r[1], _SPA[wk][i] * (1 - t) + _SPA[wk][i + 1] * t,
         rtol=1e-4)


@harness(P, 'As_min_2(inside)', bounds='any crack width between 0.2 and 0.4 '
         'mm and any stress inside a tabulated cell', budget=40)
def as_min_2_inside(c):
    col = c.choice('col', [(0.4, 0.3), (0.3, 0.2)])
    n = 5 if col[0] == 0.4 else 3
    i = c.choice('row', list(range(n)))
    wk = c.real('wk', col[1] + 0.001, col[0] - 0.001)
    s = c.real('s', _S_PHI[i] + 0.5, _S_PHI[i + 1] - 0.5)
    from structuralcodes.codes.ec2_2004 import As_min_2

    phi, spa = As_min_2(wk, s, 2.9, 80, 500, 490)
    for nm, v, tab in (('diameter', phi, _PHI), ('spacing', spa, _SPA)):
        cs = [tab[w][j] for w in col for j in (i, i + 1)]
        c.le(f'{nm} below the largest corner', v, max(cs), rtol=1e-5)
        c.le(f'{nm} above the smallest corner', min(cs), v, rtol=1e-5)


@harness(P, 'As_min_2(domain)', bounds='negative arguments, crack widths '
         'outside [0.2, 0.4], stresses outside [160, 450]')
def as_min_2_domain(c):
    from structuralcodes.codes.ec2_2004 import As_min_2

    a = dict(wk=0.3, sigma_s=250, fct_eff=2.9, h_cr=200, h=500, d=450)
    k = c.choice('which', ['wk', 'fct_eff', 'h_cr', 'h', 'd', 'kc<0',
                           'kc>1', 'wk high', 'wk low', 's high', 's low',
                           's zero'])
    if k == 'kc<0':
        a['kc'] = c.real('v', -2, -0.001)
    elif k == 'kc>1':
        a['kc'] = c.real('v', 1.001, 3)
    elif k == 'wk high':
        a['wk'] = c.real('v', 0.401, 2)
    elif k == 'wk low':
        a['wk'] = c.real('v', 0, 0.199)
    elif k == 's high':
        a['sigma_s'] = c.real('v', 360.5, 1000)
    elif k == 's low':
        a['sigma_s'] = c.real('v', 1, 159.5)
    elif k == 's zero':
        a['sigma_s'] = c.real('v', 0, 100)
        a['delta_s'] = c.real('v2', 100, 300)
        r = As_min_2(**a)
        c.eq('no reinforcement without stress', r[0], 0)
        c.eq('no spacing without stress', r[1], 0)
        return
    else:
        a[k] = c.real('v', -100, -0.001)
    c.check('out of domain input is rejected',
            c.raises(lambda: As_min_2(**a)))


diff(P, E + 'alpha_e', lambda Es, Ecm: REJECT if neg(Es, Ecm) else (
    OUT if Ecm < 1 else Es / Ecm), Es=(-10, 3e5), Ecm=(-10, 6e4))
diff(P, E + 'rho_p_eff', lambda As, xi1, Ap, Ac_eff: REJECT if neg(
    As, xi1, Ap, Ac_eff) else OUT if Ac_eff < 1 else
     (As + xi1 ** 2 * Ap) / Ac_eff,
     As=(-10, 1e5), xi1=(-1, 2), Ap=(-10, 1e5), Ac_eff=(-10, 1e6))
diff(P, E + 'kt', lambda load_type: {'short': 0.6, 'long': 0.4}.get(
    load_type.strip().lower(), REJECT),
     load_type=['short', 'long', 'Short', ' LONG ', 'medium', ''])


def eps_sm(sigma_s, alpha_e, rho_p_eff, kt, fct_eff, Es):
    if neg(sigma_s, alpha_e, rho_p_eff, fct_eff, Es) or kt not in (0.4, 0.6):
        return REJECT
    if rho_p_eff < 1e-4 or Es < 1000:
        return OUT
    v = (sigma_s - kt * fct_eff / rho_p_eff * (1 + alpha_e * rho_p_eff)) / Es
    return m.mx(v, 0.6 * sigma_s / Es)


diff(P, E + 'eps_sm_eps_cm', eps_sm, sigma_s=(-10, 500), alpha_e=(-1, 30),
     rho_p_eff=(-0.1, 0.2), kt=[0.6, 0.4, 0.5], fct_eff=(-1, 6),
     Es=(-10, 3e5))
diff(P, E + 'w_spacing', lambda c, phi: REJECT if neg(c, phi) else
     5 * (c + phi / 2), c=(-10, 100), phi=(-5, 60))


def phi_eq(n1, n2, phi1, phi2):
    if n1 < 0 or n2 < 0 or neg(phi1, phi2):
        return REJECT
    if n1 * phi1 + n2 * phi2 < 1:
        return OUT
    return (n1 * phi1 ** 2 + n2 * phi2 ** 2) / (n1 * phi1 + n2 * phi2)


diff(P, E + 'phi_eq', phi_eq, n1=[0, 1, 2, 3, 7, -1], n2=[0, 1, 2, 5, -2],
     phi1=(-5, 60), phi2=(-5, 60))
diff(P, E + 'phi_eq', lambda n1, n2, phi1, phi2: REJECT, exc=TypeError,
     name='phi_eq(non integer)', n1=[1.5, 2], n2=[2.5], phi1=(8, 30),
     phi2=(8, 30))
diff(P, E + 'k1', lambda bond_type: {'bond': 0.8, 'plain': 1.6}.get(
    bond_type.strip().lower(), REJECT),
     bond_type=['bond', 'plain', ' BOND', 'Plain ', 'smooth', ''])
diff(P, E + 'k1', lambda bond_type: REJECT, exc=TypeError,
     name='k1(not a string)', bond_type=[1, 0.8, None])
diff(P, E + 'kt', lambda load_type: REJECT, exc=TypeError,
     name='kt(not a string)', load_type=[1, 0.8, None])
diff(P, E + 'k2', lambda eps_r: REJECT if eps_r < 0 or eps_r > 1 else
     (1 + eps_r) / 2, eps_r=(-1, 2))
diff(P, E + 'k3', lambda: 3.4)
diff(P, E + 'k4', lambda: 0.425)


def sr_close(c, phi, rho_p_eff, k1, k2, k3=3.4, k4=0.425):
    if neg(c, phi, rho_p_eff, k3, k4) or k1 not in (0.8, 1.6) or (
            k2 < 0.5 or k2 > 1):
        return REJECT
    if rho_p_eff < 1e-4:
        return OUT
    return k3 * c + k1 * k2 * k4 * phi / rho_p_eff


diff(P, E + 'sr_max_close', sr_close, c=(-10, 100), phi=(-5, 60),
     rho_p_eff=(-0.1, 0.2), k1=[0.8, 1.6, 1.0], k2=(0.2, 1.3),
     k3=D((-1, 5)), k4=D((-1, 2)))
diff(P, E + 'sr_max_far', lambda h, x: REJECT if neg(h, x) or x > h else
     1.3 * (h - x), h=(-100, 3000), x=(-100, 3000))
diff(P, E + 'sr_max_theta', lambda sr_max_y, sr_max_z, theta: REJECT if neg(
    sr_max_y, sr_max_z) else OUT if sr_max_y < 1 or sr_max_z < 1 else
     1 / (m.cos(theta) / sr_max_y + m.sin(theta) / sr_max_z),
     sr_max_y=(-10, 1000), sr_max_z=(-10, 1000), theta=(0, 1.57))
diff(P, E + 'wk', lambda sr_max, eps_sm_eps_cm: REJECT if neg(
    sr_max, eps_sm_eps_cm) else sr_max * eps_sm_eps_cm,
     sr_max=(-10, 1000), eps_sm_eps_cm=(-1e-3, 1e-2))
diff(P, E + 'eps_sm_eps_cm_restraint_end',
     lambda alpha_e, rho_p_eff, kc, k, fct_eff, Es: 0.5 * alpha_e * kc * k *
     fct_eff * (1 + 1 / (alpha_e * rho_p_eff)) / Es,
     alpha_e=(3, 30), rho_p_eff=(1e-3, 0.2), kc=(0, 1), k=(0.65, 1),
     fct_eff=(0, 6), Es=(1e5, 3e5))
assert np
