"""EN 1992-1-1:2023: materials (section 5) and SLS (section 9, annex B)."""

import importlib

from symx import m
from symx.diff import OUT, REJECT, D, diff, table2d
from symx.harness import harness

P = 'C29'
E = 'codes.ec2_2023.'


def _mod():
    return importlib.import_module('structuralcodes.codes.ec2_2023')


def fctm(fck):
    if fck <= 50:
        return 0.3 * m.cbrt(fck) ** 2
    return 1.1 * m.cbrt(fck)


diff(P, E + 'fcm', lambda fck, delta_f=8: fck + delta_f, fck=(12, 100),
     delta_f=D((0, 12)))
diff(P, E + 'fctm', fctm, fck=(12, 100))
diff(P, E + 'fctk_5', lambda fctm: 0.7 * fctm, fctm=(0, 10))
diff(P, E + 'fctk_95', lambda fctm: 1.3 * fctm, fctm=(0, 10))
diff(P, E + 'Ecm', lambda fcm, kE=9500: REJECT if fcm < 0 or kE < 5000 or (
    kE > 13000) else kE * m.cbrt(fcm), fcm=(-5, 120), kE=D((4000, 14000)))
diff(P, E + 'hn', lambda Ac, u: REJECT if Ac < 0 or u < 0 else OUT if u < 1
     else 2 * Ac / u, Ac=(-10, 1e7), u=(-10, 1e5))


def A_phi(hn, atm_conditions):
    a = {'dry': (0.82, 0.79, 0.75, 0.72),
         'humid': (0.71, 0.68, 0.66, 0.64)}.get(
        atm_conditions.strip().lower())
    if hn < 100 or hn > 1000 or a is None:
        return REJECT
    return m.interp(hn, [100, 200, 500, 1000], a)


ATM = ['dry', 'humid', ' Dry', 'HUMID ', 'wet']
diff(P, E + 'A_phi_correction_exp', A_phi, hn=(50, 1200), atm_conditions=ATM)
diff(P, E + 'phi_correction_factor',
     lambda fck, A_exponent: REJECT if fck < 12 or fck > 100 or
     A_exponent < 0.64 or A_exponent > 0.82 else m.pow(35 / fck, A_exponent),
     fck=(5, 120), A_exponent=[0.5, 0.64, 0.7, 0.75, 0.82, 0.9])
diff(P, E + 'phi_correction_factor',
     lambda fck, A_exponent: REJECT if A_exponent < 0.64 or
     A_exponent > 0.82 else m.pow(35 / fck, A_exponent),
     name='phi_correction_factor(exponent)', fck=[12, 20, 50, 100],
     A_exponent=(0.5, 1))

# Table 5.2
_H = (100, 200, 500, 1000)
_T = {'CS': (3, 10, 32, 91, 365), 'CN': (1, 7, 28, 91, 365),
      'CR': (1, 3, 23, 91, 365)}
_PHI = {
    'dry': ((4.2, 3.8, 3.4, 3.1), (3.1, 2.8, 2.5, 2.3),
            (2.4, 2.2, 1.9, 1.8), (1.9, 1.7, 1.5, 1.4),
            (1.4, 1.3, 1.1, 1.0)),
    'humid': ((3.0, 2.8, 2.6, 2.5), (2.2, 2.1, 2.0, 1.9),
              (1.7, 1.6, 1.6, 1.5), (1.4, 1.3, 1.2, 1.2),
              (1.0, 0.9, 0.9, 0.8)),
}
_ALIAS = {'CS': ('CS', 'slow', ' cs'), 'CN': ('CN', 'Normal', 'cn '),
          'CR': ('CR', 'rapid', 'RAPID ')}
for _a in ('dry', 'humid'):
    for _c in ('CS', 'CN', 'CR'):
        table2d(P, f'phi_50y_t0[{_a}_{_c}]',
                lambda c, t, h, _a=_a, _c=_c: _mod().phi_50y_t0(
                    t, c.choice('atm', [_a, _a.upper() + ' ']), h,
                    c.choice('class', _ALIAS[_c])),
                _T[_c], _H, _PHI[_a], bounds=f'{_a}, {_c}',
                hk=dict(budget=40))

# Table 5.3
_F = {'CS': (20, 35, 50), 'CN': (20, 35, 50, 80), 'CR': (35, 50, 80)}
_EPS = {
    ('dry', 'CS'): ((0.57, 0.56, 0.48, 0.36), (0.53, 0.51, 0.45, 0.35),
                    (0.49, 0.48, 0.43, 0.35)),
    ('dry', 'CN'): ((0.67, 0.65, 0.56, 0.41), (0.60, 0.59, 0.51, 0.39),
                    (0.55, 0.54, 0.48, 0.37), (0.48, 0.48, 0.43, 0.36)),
    ('dry', 'CR'): ((0.76, 0.74, 0.65, 0.48), (0.67, 0.66, 0.58, 0.44),
                    (0.55, 0.54, 0.49, 0.39)),
    ('humid', 'CS'): ((0.33, 0.32, 0.28, 0.21), (0.31, 0.31, 0.27, 0.22),
                      (0.30, 0.29, 0.27, 0.23)),
    ('humid', 'CN'): ((0.38, 0.37, 0.32, 0.24), (0.34, 0.34, 0.30, 0.24),
                      (0.31, 0.31, 0.28, 0.23), (0.30, 0.30, 0.28, 0.25)),
    ('humid', 'CR'): ((0.42, 0.41, 0.36, 0.28), (0.36, 0.35, 0.32, 0.26),
                      (0.31, 0.30, 0.28, 0.25)),
}
for (_a, _c), _v in _EPS.items():
    table2d(P, f'eps_cs_50y[{_a}_{_c}]',
            lambda c, f, h, _a=_a, _c=_c: _mod().eps_cs_50y(
                f, c.choice('atm', [_a, _a.upper() + ' ']), h,
                c.choice('class', _ALIAS[_c])),
            _F[_c], _H, _v, bounds=f'{_a}, {_c}', hk=dict(budget=40))


@harness(P, 'tables 5.2 and 5.3 (domain)', bounds='each argument outside its '
         'domain in turn')
def table_domain(c):
    mod = _mod()
    k = c.choice('which', ['t0', 'hn<', 'hn>', 'atm', 'class', 't0 late',
                           't0 early slow'])
    a = dict(t0=28, atm_conditions='dry', hn=300, strength_dev_class='CN')
    b = dict(fck_28=40, atm_conditions='dry', hn=300,
             strength_dev_class='CN')
    fs = [lambda: mod.phi_50y_t0(**a)]
    if k == 't0':
        a['t0'] = c.real('v', -5, 0.999)
    elif k == 't0 late':
        a['t0'] = c.real('v', 365.5, 5000)
    elif k == 't0 early slow':
        a['t0'] = c.real('v', 1, 2.95)
        a['strength_dev_class'] = 'CS'
    elif k == 'hn<':
        a['hn'] = b['hn'] = c.real('v', 1, 99.99)
        fs.append(lambda: mod.eps_cs_50y(**b))
    elif k == 'hn>':
        a['hn'] = b['hn'] = c.real('v', 1000.1, 3000)
        fs.append(lambda: mod.eps_cs_50y(**b))
    elif k == 'atm':
        a['atm_conditions'] = b['atm_conditions'] = c.choice(
            'atm', ['', 'wet', 'moist'])
        fs.append(lambda: mod.eps_cs_50y(**b))
    else:
        a['strength_dev_class'] = b['strength_dev_class'] = c.choice(
            'class', ['', 'C', 'fast'])
        fs.append(lambda: mod.eps_cs_50y(**b))
    for f in fs:
        c.check('out of domain input is rejected', c.raises(f))


@harness(P, 'eps_cs_50y(domain)', bounds='strength outside the table')
def eps_domain(c):
    k = c.choice('class', ['CS', 'CN', 'CR'])
    lo, hi = _F[k][0], _F[k][-1]
    if c.choice('side', ['low', 'high']) == 'low':
        f = c.real('f', 5, lo - 0.1)
    else:
        f = c.real('f', hi + 0.1, 150)
    c.check('out of domain input is rejected',
            c.raises(_mod().eps_cs_50y, f, 'dry', 300, k))


diff(P, E + 'eta_cc', lambda fck, fck_ref=40: REJECT if fck < 12 or
     fck_ref <= 0 else m.mn(m.cbrt(fck_ref / fck), 1),
     fck=(5, 120), fck_ref=D((-10, 80)))
_CLS = ['CS', 'CN', 'CR', 'slow', 'Normal', ' RAPID', 'cs', 'CX', '']


def _slow(s):
    s = s.strip().upper()
    if s in ('CS', 'SLOW'):
        return True
    return False if s in ('CN', 'CR', 'NORMAL', 'RAPID') else None


def k_tc(t_ref, t0, strength_dev_class):
    s = _slow(strength_dev_class)
    if t_ref < 0 or t0 < 0 or s is None:
        return REJECT
    if t_ref <= (56 if s else 28) and t0 > 90:
        return 1
    return 0.85


def k_tt(t_ref, strength_dev_class):
    s = _slow(strength_dev_class)
    if t_ref < 0 or s is None:
        return REJECT
    return 0.8 if t_ref <= (56 if s else 28) else 0.7


diff(P, E + 'k_tc', k_tc, t_ref=(-5, 100), t0=(-5, 400),
     strength_dev_class=_CLS)
diff(P, E + 'k_tt', k_tt, t_ref=(-5, 100), strength_dev_class=_CLS)
diff(P, E + 'fcd', lambda fck, eta_cc, k_tc, gamma_c: REJECT if fck < 12 or
     eta_cc < 0 or eta_cc > 1 or gamma_c < 1 else
     eta_cc * k_tc * fck / gamma_c,
     fck=(5, 100), eta_cc=(-0.5, 1.5), k_tc=(0.5, 1), gamma_c=(0.5, 2))
diff(P, E + 'fctd', lambda fctk_5, k_tt, gamma_c: REJECT if fctk_5 < 0 or
     gamma_c < 1 else k_tt * fctk_5 / gamma_c,
     fctk_5=(-1, 6), k_tt=(0.5, 1), gamma_c=(0.5, 2))
diff(P, E + 'eps_c1', lambda fcm: REJECT if fcm < 20 else
     m.mn(0.7 * m.cbrt(fcm), 2.8) / 1000, fcm=(10, 120))
diff(P, E + 'eps_cu1', lambda fcm: REJECT if fcm < 20 else
     m.mn(2.8 + 14 * (1 - fcm / 108) ** 4, 3.5) / 1000, fcm=(10, 120))
diff(P, E + 'k_sargin', lambda Ecm, fcm, eps_c1: REJECT if Ecm <= 0 or
     fcm < 20 or eps_c1 <= 0 else 1.05 * Ecm * eps_c1 / fcm,
     Ecm=(-10, 5e4), fcm=(10, 110), eps_c1=(-0.001, 0.003))
diff(P, E + 'eps_c2', lambda: 2e-3)
diff(P, E + 'eps_cu2', lambda: 3.5e-3)
diff(P, E + 'n_parabolic_rectangular', lambda: 2)
diff(P, E + 'weight_c', lambda concrete_type: {'nc': 25, 'npc': 24}.get(
    concrete_type.strip().lower(), REJECT),
     concrete_type=['nc', 'npc', ' NC', 'Npc ', 'c', ''])
diff(P, E + 'weight_s', lambda: 78.5)
diff(P, E + 'Es', lambda: 200000)
diff(P, E + 'alpha_c_th', lambda: 1e-5)
diff(P, E + 'alpha_s_th', lambda: 1e-5)
diff(P, E + 'fyd', lambda fyk, gamma_s: REJECT if fyk < 0 or gamma_s < 1
     else fyk / gamma_s, fyk=(-100, 800), gamma_s=(0.5, 2))
diff(P, E + 'eps_ud', lambda eps_uk, gamma_s: REJECT if eps_uk < 0 or
     gamma_s < 1 else eps_uk / gamma_s, eps_uk=(-0.1, 0.2),
     gamma_s=(0.5, 2))


def sigma_s(eps, fy, k, eps_u, Es=200000):
    if eps < 0 or eps_u <= 0 or (eps > eps_u and k > 1) or Es <= 0 or (
            fy <= 0 or k < 0):
        return REJECT
    if Es < 1e5:
        return OUT
    ey = fy / Es
    if eps <= ey:
        return eps * Es
    if eps_u <= 1.01 * ey:
        return OUT
    return fy + fy * (k - 1) * (eps - ey) / (eps_u - ey)


diff(P, E + 'sigma_s', sigma_s, eps=(-0.01, 0.1), fy=(-10, 700),
     k=(-0.5, 1.5), eps_u=(-0.01, 0.08), Es=D((-10, 3e5)))
_PS = {('W', 'Y1570'): (1380, 1570), ('W', 'Y1670'): (1470, 1670),
       ('W', 'Y1770'): (1550, 1770), ('W', 'Y1860'): (1650, 1860),
       ('S', 'Y1770'): (1560, 1770), ('S', 'Y1860'): (1640, 1860),
       ('S', 'Y1960'): (1740, 1960), ('S', 'Y2060'): (1830, 2060),
       ('B', 'Y1030'): (835, 1030), ('B', 'Y1050'): (950, 1050),
       ('B', 'Y1100'): (900, 1100), ('B', 'Y1230'): (1080, 1230)}


def p_params(prestress_class, element):
    k = (element.strip().upper(), prestress_class.strip().upper())
    if k == ('W', 'Y1560'):
        return OUT
    return _PS.get(k, REJECT)


diff(P, E + 'p_steel_stress_params', p_params,
     prestress_class=['Y1570', 'Y1670', 'Y1770', 'Y1860', 'Y1960', 'Y2060',
                      'Y1030', 'Y1050', 'Y1100', 'Y1230', ' y1770 ', 'Y1',
                      ''],
     element=['W', 'S', 'B', 'w', ' s', 'b ', 'X'])
diff(P, E + 'fpd', lambda fp01k, gamma_P: REJECT if fp01k < 0 or gamma_P < 1
     else fp01k / gamma_P, fp01k=(-10, 2000), gamma_P=(0.5, 2))


def sigma_p(eps, fpy, fpu, eps_u=0.035, Ep=190000):
    if eps < 0 or eps_u <= 0 or fpy <= 0 or fpu < fpy or Ep <= 0:
        return REJECT
    if eps_u < eps and fpy != fpu:
        return REJECT
    if Ep < 1e5:
        return OUT
    ey = fpy / Ep
    if eps <= ey:
        return eps * Ep
    if eps_u <= 1.01 * ey:
        return OUT
    return fpy + (fpu - fpy) * (eps - ey) / (eps_u - ey)


diff(P, E + 'sigma_p', sigma_p, eps=(-0.01, 0.1), fpy=(-10, 2000),
     fpu=(500, 2500), eps_u=D((-0.01, 0.08)), Ep=D((-10, 3e5)))
_DUCT = {'A': (0.025, 1.05), 'B': (0.05, 1.08), 'C': (0.075, 1.15)}


def _duct(fyk, ductility_class):
    d = _DUCT.get(ductility_class.upper())
    if d is None:
        return REJECT
    return {'epsuk': d[0], 'ftk': d[1] * fyk}


diff(P, E + 'reinforcement_duct_props', _duct, fyk=(0, 800),
     ductility_class=['A', 'B', 'C', 'a', 'b', 'c', 'D', ''])

# -- section 9 and annex B ---------------------------------------------------
S = 'C30'


def alpha_c(fcm):
    return m.mx(1 / (0.8 + 0.2 * fcm / 88), 1)


def Ec_eff(fcm, phi, kE=9500):
    return alpha_c(fcm) * kE * m.cbrt(fcm) / (1 + phi)


diff(S, 'codes.ec2_2023._annexB_time_dependent.alpha_c',
     lambda fcm_28: alpha_c(fcm_28), fcm_28=(10, 120))
diff(S, E + 'Ec_eff', Ec_eff, fcm=(20, 108), phi=(0, 6),
     kE=D((5000, 13000)))


def kh(b, h):
    return m.mn(m.mx(0.8 - 0.6 * (m.mn(b, h) - 0.3), 0.5), 0.8)


diff(S, E + 'kh', kh, b=(0.05, 3), h=(0.05, 3))


def As_min_y(NEd, b, h, fct_eff, fyk):
    f = kh(b, h) * fct_eff * b * h
    a = m.mn(m.mx((0.3 * NEd / 1000 + 0.2 * f) / fyk, 0), 0.5 * f / fyk)
    a = a * 1e4
    return a, m.mn(m.mx(NEd / fyk * 10 - a, 0), a)


diff(S, E + 'As_min_y', As_min_y, NEd=(-2e4, 2e4), b=(0.05, 3), h=(0.05, 3),
     fct_eff=(0.5, 6), fyk=(200, 700))


def k_1_r(h, x, ay):
    return (h - x) / (h - ay - x)


def eps_sm(sigma_s, kt, fct_eff, rho_eff, alphae, Es):
    return m.mx((sigma_s - kt * fct_eff / rho_eff * (1 + alphae * rho_eff))
                / Es, (1 - kt) * sigma_s / Es)


def kfl(h, xg, hceff):
    return m.mx(0.5 * (1 + (h - xg - hceff) / (h - xg)), 0.5)


def srm(c, kfl_, kb, phi, rho_eff, kw, h, x):
    return m.mn(1.5 * c + kfl_ * kb / 7.2 * phi / rho_eff,
                1.3 / kw * (h - x))


_e = dict(sigma_s=(0, 500), kt=[0.6, 0.4], fct_eff=(0.5, 6),
          rho_eff=(1e-3, 0.2), alphae=(3, 30), Es=(1e5, 3e5))
diff(S, E + 'wk_cal2', lambda kw, k_1_r, srm_cal, epssm_epscm:
     kw * k_1_r * srm_cal * epssm_epscm,
     kw=(1, 2), k_1_r=(1, 3), srm_cal=(1, 1000), epssm_epscm=(0, 0.01))
diff(S, E + 'k_1_r', k_1_r, h=(100, 2000), x=(0, 90), ay=(0, 5))
diff(S, E + 'epssm_epscm', eps_sm, **_e)
diff(S, E + 'kfl', kfl, h=(500, 2000), xg=(10, 450), hceff=(10, 1900))
diff(S, E + 'srm_cal', srm, c=(5, 100), kfl_=(0.5, 1), kb=(0.5, 1.2),
     phi=(5, 50), rho_eff=(1e-3, 0.2), kw=(1, 2), h=(500, 2000),
     x=(0, 450))


def wk_cal(kw, h, xg, hc_eff, c, kb, phi, rho_eff, x, sigma_s, kt, fct_eff,
           alphae, Es):
    a = k_1_r(h, x, c + phi / 2)
    b = srm(c, kfl(h, xg, hc_eff), kb, phi, rho_eff, kw, h, x)
    d = eps_sm(sigma_s, kt, fct_eff, rho_eff, alphae, Es)
    return kw * a * b * d, a, b, d


diff(S, E + 'wk_cal', wk_cal, kw=(1, 2), h=(700, 2000), xg=(10, 450),
     hc_eff=(10, 400), c=(5, 100), kb=(0.5, 1.2), phi=(5, 50),
     rho_eff=(1e-3, 0.2), x=(0, 450), sigma_s=(0, 500), kt=[0.6, 0.4],
     fct_eff=(0.5, 6), alphae=(3, 30), Es=(1e5, 3e5))


def delta(delta_loads, delta_shr, fck1, phi1, b1, h, d, As1, Mk):
    mcr = fctm(fck1) * 1000 * b1 * h ** 2 / 6
    if Mk < mcr:
        return delta_loads + delta_shr
    z = 1 - 0.5 * (mcr / Mk) ** 2
    rho = As1 / b1 / d * 1e-4
    ae = 200000 / Ec_eff(fck1 + 8, phi1)
    r = 1 / (2.7 * m.pow(ae * rho, 0.6) * (d / h) ** 3)
    ks = 455 * rho ** 2 - 35 * rho + 1.6
    return (z * r + 1 - z) * (delta_loads + ks * delta_shr)


diff(S, E + 'delta_simpl', delta, delta_loads=(0, 0.1), delta_shr=(0, 0.1),
     fck1=(12, 90), phi1=(0, 5), b1=(0.1, 2), h=(0.1, 2), d=(0.05, 1.9),
     As1=(0.5, 200), Mk=(1, 5000))
