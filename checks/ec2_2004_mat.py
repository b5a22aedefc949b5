"""EN 1992-1-1:2004 concrete and reinforcement material properties."""

from symx import m
from symx.diff import REJECT, D, diff, vec

P = 'C25'
E = 'codes.ec2_2004.'
FCK = (12, 90)


def _fctm(fck):
    if fck <= 50:
        return 0.3 * m.pow(fck, 2 / 3)
    return 2.12 * m.log(1 + (fck + 8) / 10)


diff(P, E + 'fcm', lambda fck, delta_f=8: fck + delta_f,
     fck=FCK, delta_f=D((0, 12)))
diff(P, E + 'fctm', lambda fck: _fctm(fck), fck=FCK)
diff(P, E + 'fctk_5', lambda fctm: 0.7 * fctm, fctm=(0, 10))
diff(P, E + 'fctk_95', lambda fctm: 1.3 * fctm, fctm=(0, 10))
diff(P, E + 'Ecm', lambda fcm: 22000 * m.pow(fcm / 10, 0.3), fcm=(10, 110))
diff(P, E + 'eps_c1',
     lambda fcm: m.mn(0.7 * m.pow(fcm, 0.31), 2.8) / 1000, fcm=(10, 110))
diff(P, E + 'eps_cu1',
     lambda fck: 0.0035 if fck < 50 else
     (2.8 + 27 * ((98 - fck - 8) / 100) ** 4) / 1000, fck=FCK)
diff(P, E + 'k_sargin', lambda Ecm, fcm, eps_c1: 1.05 * Ecm * eps_c1 / fcm,
     Ecm=(2e4, 5e4), fcm=(10, 110), eps_c1=(0.001, 0.003))
diff(P, E + 'eps_c2', lambda fck: 0.002 if fck <= 50 else
     (2.0 + 0.085 * m.pow(fck - 50, 0.53)) / 1000, fck=FCK)
diff(P, E + 'eps_cu2', lambda fck: 0.0035 if fck <= 50 else
     (2.6 + 35 * ((90 - fck) / 100) ** 4) / 1000, fck=FCK)
diff(P, E + 'eps_cu3', lambda fck: 0.0035 if fck <= 50 else
     (2.6 + 35 * ((90 - fck) / 100) ** 4) / 1000, fck=FCK)
diff(P, E + 'eps_c3', lambda fck: 0.00175 if fck <= 50 else
     (1.75 + 0.55 * (fck - 50) / 40) / 1000, fck=FCK)
diff(P, E + 'n_parabolic_rectangular', lambda fck: 2.0 if fck <= 50 else
     1.4 + 23.4 * ((90 - fck) / 100) ** 4, fck=FCK)
diff(P, E + 'fcd', lambda fck, alpha_cc, gamma_c: alpha_cc * fck / gamma_c,
     fck=FCK, alpha_cc=(0.5, 1), gamma_c=(1, 2))
diff(P, E + 'beta_cc', lambda t, s: m.exp(s * (1 - m.sqrt(28 / t))),
     t=(0.5, 40000), s=(0.1, 0.5))
diff(P, E + 'beta_E', lambda t, s: m.exp(0.3 * s * (1 - m.sqrt(28 / t))),
     t=(0.5, 40000), s=(0.1, 0.5))
diff(P, E + 'beta_ct', lambda t, s: m.exp(
    (1 if t < 28 else 2 / 3) * s * (1 - m.sqrt(28 / t))),
     t=(0.5, 40000), s=(0.1, 0.5))
diff(P, E + 's_time_development',
     lambda cement_class: {'R': 0.2, 'N': 0.25, 'S': 0.38}.get(
         (cement_class or '').strip().upper(), REJECT),
     cement_class=['R', 'N', 'S', 'r', 'n', 's', ' N ', 'CN', 'X', '', None])
diff(P, E + 'fcm_time', lambda fcm, beta_cc: fcm * beta_cc,
     fcm=(10, 110), beta_cc=(0, 2))
diff(P, E + 'fctm_time',
     lambda fctm, beta_cc, alpha: fctm * m.pow(beta_cc, alpha),
     fctm=(0.5, 6), beta_cc=(0.1, 2), alpha=[1, 2 / 3, 0.5])
diff(P, E + 'Ecm_time',
     lambda fcm, fcm_time, Ecm: m.pow(fcm_time / fcm, 0.3) * Ecm,
     fcm=(10, 110), fcm_time=(1, 150), Ecm=(2e4, 5e4))
diff(P, E + 'fyd',
     lambda fyk, gamma_s: REJECT if fyk < 0 or gamma_s < 1 else
     fyk / gamma_s, fyk=(-100, 800), gamma_s=(0.5, 2))
diff(P, E + 'epsud',
     lambda epsuk, gamma_eps=0.9: REJECT if epsuk < 0 or gamma_eps > 1 else
     epsuk * gamma_eps, epsuk=(-0.1, 0.2), gamma_eps=D((0.1, 1.5)))
_DUCT = {'A': (0.025, 1.05), 'B': (0.05, 1.08), 'C': (0.075, 1.15)}


def _duct(fyk, ductility_class):
    d = _DUCT.get(ductility_class.upper())
    if d is None:
        return REJECT
    return {'epsuk': d[0], 'ftk': d[1] * fyk}


diff(P, E + 'reinforcement_duct_props', _duct, fyk=(0, 800),
     ductility_class=['A', 'B', 'C', 'a', 'b', 'c', 'D', ''])


for _n in ('beta_cc', 'beta_ct', 'beta_E'):
    vec(P, E + _n, lambda t, s, _n=_n: m.exp(
        (1 if _n == 'beta_cc' else 0.3 if _n == 'beta_E' else
         (1 if t < 28 else 2 / 3)) * s * (1 - m.sqrt(28 / t))),
        containers=('array',), t=(0.5, 40000), s=(0.1, 0.5),
        whole=[1, 7, 28, 10000])
