"""fib Model Code 2010: creep and shrinkage (C32)."""

import warnings

import numpy as np
from symx import m
from symx.diff import OUT, REJECT, diff, resolve, vec
from symx.harness import harness

P = 'C32'
E = 'codes.mc2010.'
CEM = ['32.5 N', '32.5 R', '42.5 N', '42.5 R', '52.5 N', '52.5 R']
GRP = {'32.5 N': 's', '32.5 R': 'n', '42.5 N': 'n', '42.5 R': 'r',
       '52.5 N': 'r', '52.5 R': 'r'}
ALPHA = {'s': -1, 'n': 0, 'r': 1}
ABS = {'s': 800, 'n': 700, 'r': 600}
DS1 = {'s': 3, 'n': 4, 'r': 6}
DS2 = {'s': 0.013, 'n': 0.012, 'r': 0.012}


def tT1(T, dt):
    return m.exp(13.65 - 4000 / (273 + T)) * dt


diff(P, E + 't_T', lambda T_cur, dt: tT1(T_cur, dt), T_cur=(-20, 80),
     dt=(0, 365))


@harness(P, 't_T(history)', bounds='two intervals, T in [-20, 80], '
         'dt in [0, 365]; arrays and lists')
def t_T_hist(c):
    T = [c.real(f'T{i}', -20, 80) for i in range(2)]
    dt = [c.real(f'dt{i}', 0, 365) for i in range(2)]
    k = c.choice('container', ['list', 'array'])
    dty = object if c.symbolic else float
    a, b = (T, dt) if k == 'list' else (
        np.array(T, dtype=dty), np.array(dt, dtype=dty))
    got = resolve(E + 't_T')(a, b)
    c.eq('age', got, sum(tT1(x, y) for x, y in zip(T, dt)))


@harness(P, 't_T(mismatch)', bounds='scalar/array mixes, different lengths')
def t_T_bad(c):
    k = c.choice('k', ['sa', 'as', 'len'])
    v = c.real('v', 1, 30)
    ar = np.array([v, v], dtype=object if c.symbolic else float)
    f = resolve(E + 't_T')
    a = {'sa': (v, ar), 'as': (ar, v), 'len': (ar, ar[:1])}[k]
    c.check('rejected', c.raises(lambda: f(*a)))


def t0_adj(t_T, cem_class):
    a = ALPHA[GRP[cem_class]]
    b = 9 / (2 + m.pow(t_T, 1.2)) + 1
    return m.mx(t_T * b if a == 1 else t_T if a == 0 else t_T / b, 0.5)


diff(P, E + 't0_adj', t0_adj, t_T=(0.01, 500), cem_class=CEM)
diff(P, E + 'eps_cds0',
     lambda fcm, cem_class: (220 + 110 * DS1[GRP[cem_class]])
     * m.exp(-DS2[GRP[cem_class]] * fcm) * 1e-6,
     fcm=(20, 130), cem_class=CEM)


def beta_ds(time, ts, notional_size):
    d = m.mx(time - ts, 0)
    return m.sqrt(d / (0.035 * notional_size ** 2 + d))


diff(P, E + 'beta_ds', beta_ds, time=(0, 40000), ts=(0, 200),
     notional_size=(10, 2000))
vec(P, E + 'beta_ds', beta_ds, over=('time',), time=(0, 40000), ts=(0, 200),
    notional_size=(10, 2000), whole=[0, 7, 28, 10000])
diff(P, E + 'beta_s1', lambda fcm: m.mn(m.pow(35 / fcm, 0.1), 1),
     fcm=(10, 140))


def rh01(rh):
    if OUTRH(rh):
        return None
    return rh / 100 if rh > 1 else rh


def OUTRH(rh):
    return (rh < 0.4 or rh > 1) and (rh < 40 or rh > 100)


def beta_RH(rh, beta_s1):
    r = rh01(rh)
    if r is None or r < 0.4 * beta_s1:
        return REJECT
    if r >= 0.99 * beta_s1:
        return 0.25
    return -1.55 * (1 - r ** 3)


diff(P, E + 'beta_RH', beta_RH, rh=(0.1, 2), beta_s1=(0.3, 1.5),
     name='beta_RH(ratio)')
diff(P, E + 'beta_RH', beta_RH, rh=(10, 120), beta_s1=(0.3, 1.5),
     name='beta_RH(percent)')
diff(P, E + 'eps_cds', lambda eps_cds0, beta_ds, beta_rh: eps_cds0 * beta_ds
     * beta_rh, eps_cds0=(0, 1e-3), beta_ds=(0, 1), beta_rh=(-2, 0.25),
     atol=1e-12)
diff(P, E + 'eps_cbs0',
     lambda fcm, cem_class: -ABS[GRP[cem_class]] * m.pow(
         0.1 * fcm / (6 + 0.1 * fcm), 2.5) * 1e-6,
     fcm=(20, 130), cem_class=CEM)


def beta_bs(time):
    return 1 - m.exp(-0.2 * m.sqrt(time))


diff(P, E + 'beta_bs', beta_bs, time=(0, 40000), atol=1e-9)
vec(P, E + 'beta_bs', beta_bs, over=('time',), containers=('array', 'list'),
    time=(0, 40000), atol=1e-9, whole=[0, 7, 28, 10000])
diff(P, E + 'eps_cbs', lambda eps_cbs0, beta_bs: eps_cbs0 * beta_bs,
     eps_cbs0=(-1e-3, 0), beta_bs=(0, 1), atol=1e-12)
diff(P, E + 'beta_bc_fcm', lambda fcm: 1.8 / m.pow(fcm, 0.7), fcm=(10, 140))


def beta_bc_t(time, t0, t0_adj):
    if time < t0:
        return OUT
    return m.log((30 / t0_adj + 0.035) ** 2 * (time - t0) + 1)


diff(P, E + 'beta_bc_t', beta_bc_t, time=(1, 40000), t0=(1, 400),
     t0_adj=(0.5, 400), atol=1e-9)
vec(P, E + 'beta_bc_t', beta_bc_t, over=('time',), containers=('array',),
    time=(400, 40000), t0=(1, 400), t0_adj=(0.5, 400), atol=1e-9,
    whole=[7, 28, 10000])
diff(P, E + 'phi_bc', lambda beta_bc_fcm, beta_bc_t: beta_bc_fcm * beta_bc_t,
     beta_bc_fcm=(0, 1), beta_bc_t=(0, 20))
diff(P, E + 'beta_dc_fcm', lambda fcm: 412 / m.pow(fcm, 1.4), fcm=(10, 140))


def beta_dc_RH(rh, notional_size):
    r = rh01(rh)
    if r is None:
        return REJECT
    return (1 - r) / m.cbrt(0.1 * notional_size / 100)


diff(P, E + 'beta_dc_RH', beta_dc_RH, rh=(0.1, 2), notional_size=(10, 2000),
     name='beta_dc_RH(ratio)', atol=1e-9)
diff(P, E + 'beta_dc_RH', beta_dc_RH, rh=(10, 120), notional_size=(10, 2000),
     name='beta_dc_RH(percent)', atol=1e-9)
diff(P, E + 'beta_dc_t0', lambda t0_adj: 1 / (0.1 + m.pow(t0_adj, 0.2)),
     t0_adj=(0.5, 400))
diff(P, E + 'alpha_fcm', lambda fcm: m.sqrt(35 / fcm), fcm=(10, 140))
diff(P, E + 'beta_h', lambda notional_size, alpha_fcm: m.mn(
    1.5 * notional_size + 250 * alpha_fcm, 1500 * alpha_fcm),
    notional_size=(10, 3000), alpha_fcm=(0.3, 2))
diff(P, E + 'gamma_t0', lambda t0_adj: 1 / (2.3 + 3.5 / m.sqrt(t0_adj)),
     t0_adj=(0.5, 400))


def beta_dc_t(time, t0, beta_h, gamma_t0):
    if time <= t0:
        return OUT
    d = time - t0
    return m.pow(d / (beta_h + d), gamma_t0)


for _g in (0.2, 0.35, 0.43):
    diff(P, E + 'beta_dc_t', beta_dc_t, time=(1, 40000), t0=(1, 400),
         beta_h=(50, 3000), gamma_t0=_g, name=f'beta_dc_t[{_g}]')
diff(P, E + 'beta_dc_t', lambda time, t0, beta_h, gamma_t0: 0, time=28, t0=28,
     beta_h=(50, 3000), gamma_t0=0.3, name='beta_dc_t(at loading)')
vec(P, E + 'beta_dc_t', beta_dc_t, over=('time',), containers=('array',),
    time=(401, 40000), t0=(1, 400), beta_h=(50, 3000), gamma_t0=[0.2, 0.4],
    whole=[7, 28, 10000])
diff(P, E + 'phi_dc', lambda beta_dc_fcm, beta_dc_RH, beta_dc_t0, beta_dc_t:
     beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t,
     beta_dc_fcm=(0, 5), beta_dc_RH=(0, 2), beta_dc_t0=(0, 1),
     beta_dc_t=(0, 1))


def k_sigma(sigma, fcm):
    if m.ab(sigma) > 0.6 * fcm:
        return REJECT
    return m.ab(sigma) / fcm


def phi(phi_bc, phi_dc, sigma, fcm):
    k = k_sigma(sigma, fcm)
    if k is REJECT:
        return REJECT
    p = phi_bc + phi_dc
    if k > 0.4:
        return m.exp(1.5 * (k - 0.4)) * p
    return p


diff(P, E + 'k_sigma', k_sigma, sigma=(-100, 100), fcm=(20, 130))
diff(P, E + 'phi', phi, phi_bc=(0, 5), phi_dc=(0, 5), sigma=(-100, 100),
     fcm=(20, 130))
vec(P, E + 'phi', phi, over=('phi_bc', 'phi_dc'), containers=('array',),
    phi_bc=(0, 5), phi_dc=(0, 5), sigma=(-10, 0), fcm=(20, 130))
diff(P, E + 'calc_J', lambda E_ci_t0, phi, E_ci: 1 / E_ci_t0 + phi / E_ci,
     E_ci_t0=(1e4, 5e4), phi=(0, 8), E_ci=(1e4, 5e4))


@harness(P, 'nonlinear creep is announced',
         bounds='sigma in [-100, 100], fcm in [20, 130]')
def warn(c):
    s, f = c.real('sigma', -100, 100), c.real('fcm', 20, 130)
    c.assume(m.ab(s) <= 0.6 * f)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        resolve(E + 'k_sigma')(s, f)
    want = bool(m.ab(s) > 0.4 * f)
    c.check('warning exactly above 0.4 fcm', (len(w) > 0) == want)
