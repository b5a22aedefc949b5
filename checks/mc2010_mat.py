"""fib Model Code 2010: concrete and reinforcement properties (C31)."""

from symx import m
from symx.diff import REJECT, D, diff, vec

P = 'C31'
E = 'codes.mc2010.'
AGG = {'basalt': 1.2, 'quartzite': 1.0, 'limestone': 0.9, 'sandstone': 0.7}
S = {'32.5 R': 0.25, '42.5 N': 0.25, '42.5 R': 0.2, '52.5 N': 0.2,
     '52.5 R': 0.2, '32.5 N': 0.38}


def fctm(fck):
    f = m.ab(fck)
    if f <= 50:
        return 0.3 * m.cbrt(f) ** 2
    return 2.12 * m.log(1 + 0.1 * (f + 8))


diff(P, E + 'fcm', lambda fck, delta_f=8: m.ab(fck) + m.ab(delta_f),
     fck=(-120, 120), delta_f=D((-10, 10)))
diff(P, E + 'fctm', fctm, fck=(-120, -1), name='fctm(negative)')
diff(P, E + 'fctm', fctm, fck=(1, 120))
diff(P, E + 'fctkmin', lambda fctm: 0.7 * fctm, fctm=(0, 10))
diff(P, E + 'fctkmax', lambda fctm: 1.3 * fctm, fctm=(0, 10))
diff(P, E + 'Gf', lambda fck: 73 * m.pow(m.ab(fck) + 8, 0.18),
     fck=(-120, 120))
diff(P, E + 'Eci',
     lambda fcm, agg_type='quartzite', EC0=21500: EC0 * AGG[
         agg_type.lower()] * m.cbrt(fcm / 10),
     fcm=(5, 140), agg_type=D(list(AGG) + ['Basalt', 'SANDSTONE']),
     EC0=D((10000, 30000)))


def beta_cc(time, fcm, cem_class):
    s = 0.2 if fcm > 60 else S[cem_class.upper()]
    return m.exp(s * (1 - m.sqrt(28 / time)))


CEM = list(S) + ['32.5 n', '42.5 r']
diff(P, E + 'beta_cc', beta_cc, time=(0.5, 40000), fcm=(10, 130),
     cem_class=CEM)
vec(P, E + 'beta_cc', beta_cc, over=('time',), containers=('array',),
    time=(0.5, 40000), fcm=(10, 130), cem_class=list(S),
    whole=[1, 7, 28, 10000])
diff(P, E + 'beta_e', lambda beta_cc: m.sqrt(beta_cc), beta_cc=(0, 2))
vec(P, E + 'beta_e', lambda beta_cc: m.sqrt(beta_cc), over=('beta_cc',),
    containers=('array',), beta_cc=(0, 2))
diff(P, E + 'Eci_t', lambda beta_e, Eci: beta_e * Eci, beta_e=(0, 2),
     Eci=(1e4, 5e4))
diff(P, E + 'fcd',
     lambda fck, alpha_cc=1.0, gamma_c=1.5: m.ab(alpha_cc) * m.ab(fck)
     / m.ab(gamma_c), fck=(-120, 120), alpha_cc=D((-1, 1)),
     gamma_c=D((1, 2)))
diff(P, E + 'fcd',
     lambda fck, alpha_cc=1.0, gamma_c=1.5: alpha_cc * fck / -gamma_c,
     fck=(1, 120), alpha_cc=D((0.5, 1)), gamma_c=(-2, -1),
     name='fcd(negative gamma_c)')

G = [12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120]
EC1 = [-1.9, -2.0, -2.1, -2.2, -2.3, -2.3, -2.4, -2.5, -2.6, -2.6, -2.7,
       -2.7, -2.8, -2.9, -3.0, -3.0, -3.0]
ECL = [-3.5] * 8 + [-3.4, -3.4, -3.3, -3.2, -3.1, -3.0, -3.0, -3.0, -3.0]
KS = [2.44, 2.36, 2.28, 2.15, 2.04, 1.92, 1.82, 1.74, 1.66, 1.61, 1.55, 1.47,
      1.41, 1.36, 1.32, 1.24, 1.18]


def tab(vals, f):
    def ref(fck):
        if fck < 12 or fck > 120:
            return REJECT
        return m.interp(fck, G, vals) * f
    return ref


for _n, _v, _f in (('eps_c1', EC1, 1e-3), ('eps_cu1', ECL, 1e-3), ('k_sargin', KS, 1)):
    diff(P, E + _n, tab(_v, _f), fck=(1, 140))


def hi(lo, f):
    def ref(fck):
        fck = m.ab(fck)
        return lo if fck <= 50 else f(fck)
    return ref


ECU2 = hi(3.5e-3, lambda f: (2.6 + 35 * ((90 - f) / 100) ** 4) / 1000)
for _n, _r in (
    ('eps_c2', hi(2e-3, lambda f: (2 + 0.085 * m.pow(f - 50, 0.53)) / 1000)),
    ('eps_cu2', ECU2), ('eps_cu3', ECU2),
    ('n_parabolic_rectangular',
     hi(2, lambda f: 1.4 + 23.4 * ((90 - f) / 100) ** 4)),
    ('eps_c3', hi(1.75e-3, lambda f: (1.75 + 0.55 * (f - 50) / 40) / 1000)),
):
    diff(P, E + _n, _r, fck=(1, 90))
    diff(P, E + _n, _r, fck=(-90, -1), name=f'{_n}(negative)')

diff(P, E + 'fyd', lambda fyk, gamma_s=1.15: REJECT if fyk < 0 or gamma_s < 1
     else fyk / gamma_s, fyk=(-100, 1000), gamma_s=D((0.5, 2)))
diff(P, E + 'epsud',
     lambda epsuk, gamma_eps=0.9: REJECT if epsuk < 0 or gamma_eps > 1
     else epsuk * gamma_eps, epsuk=(-0.01, 0.2), gamma_eps=D((0.1, 2)))
_DUCT = {'A': (2.5e-2, 1.05), 'B': (5e-2, 1.08), 'C': (7.5e-2, 1.15),
         'D': (8e-2, 1.25)}


def duct(fyk, ductility_class):
    d = _DUCT.get(ductility_class.upper())
    if d is None:
        return REJECT
    return {'epsuk': d[0], 'ftk': d[1] * fyk}


diff(P, E + 'reinforcement_duct_props', duct, fyk=(100, 1000),
     ductility_class=['A', 'B', 'C', 'D', 'a', 'd', 'E', ''])
