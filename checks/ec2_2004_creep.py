"""EN 1992-1-1:2004 annex B and 3.1.4: creep and shrinkage."""

from symx import m
from symx.diff import REJECT, D, diff, vec
from symx.harness import harness

P = 'C26'
E = 'codes.ec2_2004.'
CEM = ['R', 'N', 'S', 'r', 'n', 's', 'CR', '']


def lookup(d):
    return lambda cement_class: d.get(cement_class.strip().upper(), REJECT)


diff(P, E + 'alpha_ds1', lookup({'S': 3, 'N': 4, 'R': 6}),
     cement_class=CEM + [' S '])
diff(P, E + 'alpha_ds2', lookup({'S': 0.13, 'N': 0.12, 'R': 0.11}),
     cement_class=CEM + [' R '])
diff(P, E + 'alpha_cement', lookup({'S': -1, 'N': 0, 'R': 1}),
     cement_class=CEM)
diff(P, E + 'eps_cs', lambda eps_cd, eps_ca: eps_cd + eps_ca,
     eps_cd=(0, 1e-3), eps_ca=(0, 1e-3))
vec(P, E + 'eps_cs', lambda eps_cd, eps_ca: eps_cd + eps_ca,
    over=('eps_cd', 'eps_ca'), eps_cd=(0, 1e-3), eps_ca=(0, 1e-3))
diff(P, E + 'eps_cd', lambda beta_ds, k_h, eps_cd_0: beta_ds * k_h * eps_cd_0,
     beta_ds=(0, 1), k_h=(0.7, 1), eps_cd_0=(0, 1e-3))
vec(P, E + 'eps_cd', lambda beta_ds, k_h, eps_cd_0: beta_ds * k_h * eps_cd_0,
    over=('beta_ds',), beta_ds=(0, 1), k_h=(0.7, 1), eps_cd_0=(0, 1e-3))


def beta_ds(t, t_s, h_0):
    td = t - t_s if t > t_s else 0
    return td / (td + 0.04 * m.sqrt(h_0) ** 3)


diff(P, E + 'beta_ds', beta_ds, t=(0, 40000), t_s=(0, 400), h_0=(20, 2000))
vec(P, E + 'beta_ds', beta_ds, t=(0, 40000), t_s=(0, 400), h_0=(20, 2000),
    whole=[0, 7, 28, 10000])
diff(P, E + 'k_h',
     lambda h_0: m.interp(h_0, [100, 200, 300, 500], [1, 0.85, 0.75, 0.7]),
     h_0=(1, 3000))
diff(P, E + 'eps_cd_0',
     lambda alpha_ds1, alpha_ds2, fcm, beta_RH, fcm_0=10: 0.85e-6 * (
         220 + 110 * alpha_ds1) * m.exp(-alpha_ds2 * fcm / fcm_0) * beta_RH,
     alpha_ds1=(3, 6), alpha_ds2=(0.11, 0.13), fcm=(10, 110),
     beta_RH=(0, 1.55), fcm_0=D((5, 15)))
diff(P, E + 'beta_RH',
     lambda RH, RH_0=100: 1.55 * (1 - (RH / RH_0) ** 3),
     RH=(0, 100), RH_0=D((80, 120)))
diff(P, E + 'eps_ca', lambda beta_as, eps_ca_inf: beta_as * eps_ca_inf,
     beta_as=(0, 1), eps_ca_inf=(0, 1e-3))
vec(P, E + 'eps_ca', lambda beta_as, eps_ca_inf: beta_as * eps_ca_inf,
    over=('beta_as',), beta_as=(0, 1), eps_ca_inf=(0, 1e-3))
diff(P, E + 'eps_ca_inf', lambda fck: 2.5e-6 * (fck - 10), fck=(10, 90))
diff(P, E + 'beta_as', lambda t: 1 - m.exp(-0.2 * m.sqrt(t)), t=(0, 40000))
vec(P, E + 'beta_as', lambda t: 1 - m.exp(-0.2 * m.sqrt(t)), t=(0, 40000),
    whole=[0, 7, 28, 10000])
diff(P, E + 'phi', lambda phi_0, beta_c: phi_0 * beta_c,
     phi_0=(0, 10), beta_c=(0, 1))
vec(P, E + 'phi', lambda phi_0, beta_c: phi_0 * beta_c, over=('beta_c',),
    phi_0=(0, 10), beta_c=(0, 1))
diff(P, E + 'phi_0', lambda phi_RH, beta_fcm, beta_t0:
     phi_RH * beta_fcm * beta_t0,
     phi_RH=(0, 5), beta_fcm=(0, 5), beta_t0=(0, 2))


def phi_RH(h_0, fcm, RH, alpha_1, alpha_2):
    b = (1 - RH / 100) / (0.1 * m.cbrt(h_0))
    if fcm <= 35:
        return 1 + b
    return (1 + b * alpha_1) * alpha_2


diff(P, E + 'phi_RH', phi_RH, h_0=(20, 2000), fcm=(10, 110), RH=(0, 100),
     alpha_1=(0.4, 2), alpha_2=(0.4, 2))
diff(P, E + 'beta_fcm', lambda fcm: 16.8 / m.sqrt(fcm), fcm=(10, 110))
diff(P, E + 'beta_t0', lambda t0: 1 / (0.1 + m.pow(t0, 0.2)), t0=(0.5, 4e4))
diff(P, E + 'h_0', lambda Ac, u: 2 * Ac / u, Ac=(1, 1e7), u=(1, 1e5))


def beta_c(t0, t, beta_H):
    tl = t - t0 if t > t0 else 0
    return m.pow(tl / (beta_H + tl), 0.3)


diff(P, E + 'beta_c', beta_c, t0=(0.5, 400), t=(0, 40000),
     beta_H=(100, 1500))
vec(P, E + 'beta_c', beta_c, t0=(0.5, 400), t=(0, 40000),
    beta_H=(100, 1500), whole=[0, 7, 28, 10000])


def beta_H(h_0, fcm, RH, alpha_3):
    a = 1 if fcm <= 35 else alpha_3
    return m.mn(
        1.5 * (1 + (0.012 * RH) ** 18) * h_0 + 250 * a, 1500 * a
    )


diff(P, E + 'beta_H', beta_H, h_0=(20, 2000), fcm=(10, 110), RH=(0, 100),
     alpha_3=(0.4, 2))
for _n, _e in (('alpha_1', 0.7), ('alpha_2', 0.2), ('alpha_3', 0.5)):
    diff(P, E + _n, lambda fcm, _e=_e: m.pow(35 / fcm, _e), fcm=(10, 110))
diff(P, E + 't0_adj', lambda t0, alpha_cement: m.mx(
    t0 * m.pow(9 / (2 + m.pow(t0, 1.2)) + 1, alpha_cement), 0.5),
     t0=(0.1, 4000), alpha_cement=[-1, 0, 1])
diff(P, E + 't_T', lambda T, dt: dt * m.exp(13.65 - 4000 / (273 + T)),
     T=(-10, 80), dt=(0, 100))


@harness(P, 't_T(array)', bounds='two intervals; T in [-10, 80], dt in '
         '[0, 100]')
def t_T(c):
    import numpy as np
    from structuralcodes.codes.ec2_2004 import t_T as f

    T = [c.real('T1', -10, 80), c.real('T2', -10, 80)]
    dt = [c.real('d1', 0, 100), c.real('d2', 0, 100)]
    e = sum(
        (d * m.exp(13.65 - 4000 / (273 + x)) for x, d in zip(T, dt)), 0
    )
    dt_ = object if c.symbolic else float
    c.eq('sum over the intervals',
         f(np.array(T, dtype=dt_), np.array(dt, dtype=dt_)), e)
    c.check('different lengths are rejected', c.raises(f, T, dt[:1]))
    c.check('array and scalar are rejected', c.raises(f, T, dt[0]))
    c.check('scalar and array are rejected', c.raises(f, T[0], dt))
