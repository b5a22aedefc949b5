"""fib Model Code 2010: shear (C33), punching and torsion (C34)."""

import math
import warnings

from symx import m
from symx.diff import REJECT, D, compare, diff, draw, resolve, bounds_text
from symx.harness import harness

P = 'C33'
E = 'codes.mc2010.'
RAD = math.pi / 180
L = dict(Med=(-5e8, 5e8), Ved=(-5e6, 5e6), Ned=(-5e6, 5e6),
         delta_e=(-500, 500))
L0 = dict(Med=(-5e8, 5e8), Ved=(0, 5e6), Ned=(-5e6, 5e6), delta_e=50)


def cot(a):
    return 1 / m.tan(a * RAD)


def eta(fck):
    return m.mn(m.cbrt(30 / fck), 1)


def epsx(E_s, As, z, loads):
    return m.mx(
        (m.ab(loads['Med']) / z + m.ab(loads['Ved'])
         + loads['Ned'] * (0.5 + loads['delta_e'] / z)) / (2 * E_s * As), 0)


def rdc1(fck, z, bw, gamma_c=1.5):
    return 180 / (1000 + 1.25 * z) * m.mn(m.sqrt(fck), 8) * z * bw / gamma_c


def rdc2(fck, z, bw, dg, E_s, As, loads, gamma_c=1.5):
    ex = epsx(E_s, As, z, loads)
    kdg = m.mx(32 / (16 + (0 if fck > 70 else dg)), 0.75)
    kv = 0.4 / (1 + 1500 * ex) * 1300 / (1000 + kdg * z)
    return kv * m.mn(m.sqrt(fck), 8) * z * bw / gamma_c


def strut(th, alpha):
    c = cot(th)
    return (c + cot(alpha)) / (1 + c * c)


def keps(ex, th):
    c = cot(th)
    e1 = ex + (ex + 0.002) * c * c
    return m.mn(1 / (1.2 + 55 * e1), 0.65)


def rdmax(lvl, fck, bw, theta, z, E_s=None, As=None, loads=None, alpha=90.0,
          gamma_c=1.5):
    if lvl == 1:
        k = 0.55
    else:
        ex = epsx(E_s, As, z, loads)
        if lvl == 3:
            theta = 20 + 10000 * ex
        k = keps(ex, theta)
    return k * eta(fck) * fck / gamma_c * bw * z * strut(theta, alpha)


def rdc3(fck, z, bw, E_s, As, loads, alpha=90.0, gamma_c=1.5):
    ex = epsx(E_s, As, z, loads)
    vm = rdmax(3, fck, bw, None, z, E_s, As, loads, alpha, gamma_c)
    kv = m.mx(0.4 / (1 + 1500 * ex) * (1 - loads['Ved'] / vm), 0)
    return kv * m.mn(m.sqrt(fck), 8) * z * bw / gamma_c


def rds(asw, sw, z, f_ywk, theta=45.0, alpha=90.0, gamma_s=1.15):
    return (asw / sw * z * f_ywk / gamma_s * (cot(theta) + cot(alpha))
            * m.sin(alpha * RAD))


def rd(approx_lvl, with_shear_reinforcment, fck, z, bw, dg, E_s, As, loads,
       asw=None, sw=None, f_ywk=None, theta=None, alpha=90.0, gamma_c=1.5,
       gamma_s=1.15):
    def c(lv):
        if lv == 1:
            return rdc1(fck, z, bw, gamma_c)
        if lv == 2:
            return rdc2(fck, z, bw, dg, E_s, As, loads, gamma_c)
        return rdc3(fck, z, bw, E_s, As, loads, alpha, gamma_c)

    if approx_lvl not in (1, 2, 3):
        return REJECT
    if not with_shear_reinforcment:
        return c(approx_lvl)
    s = rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
    if approx_lvl == 3:
        t = c(3) + s
        vm = rdmax(3, fck, bw, theta, z, E_s, As, loads, alpha, gamma_c)
        if t < vm:
            return t
        approx_lvl = 2
    return m.mn(s, rdmax(approx_lvl, fck, bw, theta, z, E_s, As, loads,
                         alpha, gamma_c))


def EXMAX(loads, E_s, As, z, **k):
    return epsx(E_s, As, z, loads) < 4e-3


GEO = dict(E_s=(1.8e5, 2.2e5), As=(100, 1e5), z=(50, 3000))


def ldiff(prop, fname, ref, lspec, rtol=1e-6, name=None, assume=None,
          hk=None, **args):
    """Like diff, for functions that take the load dictionary."""

    def fn(c):
        kw = draw(c, args)
        loads = draw(c, lspec)
        ld = resolve(E + 'create_load_dict')(**loads)
        if assume is not None:
            c.assume(assume(loads=loads, **kw))
        e = ref(loads=loads, **kw)
        f = resolve(E + fname)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if e is REJECT:
                c.check('rejected', c.raises(lambda: f(loads=ld, **kw)))
                return
            compare(c, 'value', f(loads=ld, **kw), e, rtol)

    k = dict(bounds=bounds_text({**args, **lspec}))
    k.update(hk or {})
    harness(prop, name or fname, **k)(fn)


diff(P, E + 'create_load_dict', lambda **k: dict(k), **L)
diff(P, E + 'eta_fc', eta, fck=(10, 120))
ldiff(P, 'epsilon_x', epsx, L, **GEO)
diff(P, E + 'v_rdc_approx1', rdc1, fck=(10, 120), z=(50, 3000),
     bw=(50, 3000), gamma_c=D((1, 2)))
ldiff(P, 'v_rdc_approx2', rdc2, L, fck=(10, 120), bw=(50, 3000), dg=(0, 64),
      gamma_c=D((1, 2)), **GEO)
diff(P, E + 'v_rds', rds, asw=(10, 5000), sw=(10, 1000), z=(50, 3000),
     f_ywk=(200, 800), theta=D((10, 60)), alpha=D([45, 60.0, 90]),
     gamma_s=D((1, 2)))
diff(P, E + 'v_rds', rds, asw=500, sw=200, z=(50, 3000), f_ywk=(200, 800),
     theta=D([20, 30, 45]), alpha=(30, 120), name='v_rds(inclined)')
diff(P, E + 'v_rd_max_approx1', lambda **k: rdmax(1, **k), fck=(10, 120),
     bw=(50, 3000), theta=(15, 60), z=(50, 3000), alpha=D([45, 60.0, 90]),
     gamma_c=D((1, 2)))
for _a in ('30', '60', '90', 'default'):
    _x = {} if _a == 'default' else {'alpha': float(_a)}
    ldiff(P, 'v_rd_max_approx2', lambda **k: rdmax(2, **k), L,
          name=f'v_rd_max_approx2[{_a}]', fck=(10, 120), bw=(50, 3000),
          theta=(15, 60), gamma_c=D((1, 2)), **_x, **GEO)
    ldiff(P, 'v_rd_max_approx3', lambda **k: rdmax(3, theta=None, **k), L,
          name=f'v_rd_max_approx3[{_a}]', fck=(10, 120), bw=(50, 3000),
          gamma_c=D((1, 2)), assume=EXMAX, **_x, **GEO)
    ldiff(P, 'v_rdc_approx3', lambda approx_lvl, **k: rdc3(**k), L,
          name=f'v_rdc_approx3[{_a}]', approx_lvl=3, fck=(10, 120),
          bw=(50, 3000), gamma_c=D((1, 2)),
          assume=EXMAX, **_x, **GEO)

G1 = dict(fck=(10, 120), bw=(50, 3000), z=(50, 3000), E_s=2e5,
          As=(100, 1e5))
ldiff(P, 'v_rdc', lambda **k: rd(with_shear_reinforcment=False, **k), L,
      approx_lvl=[1, 2, 0, 4], dg=(0, 64), gamma_c=D((1, 2)), **G1)
ldiff(P, 'v_rdc', lambda **k: rd(with_shear_reinforcment=False, **k), L,
      approx_lvl=3, dg=16, alpha=D([60.0]), gamma_c=D((1, 2)),
      name='v_rdc[3]', assume=EXMAX, **G1)
ldiff(P, 'v_rd_max', lambda approx_lvl, **k: rdmax(approx_lvl, **k)
      if approx_lvl in (1, 2, 3) else REJECT, L, approx_lvl=[1, 2, 3, 0, 4],
      theta=(20, 45), alpha=D([60.0]), gamma_c=D((1, 2)),
      assume=EXMAX,
      **G1)
ldiff(P, 'v_rd', rd, L, approx_lvl=[1, 2, 0, 4], name='v_rd(plain)',
      with_shear_reinforcment=False, dg=(0, 64), gamma_c=D((1, 2)),
      **G1)
RF = dict(with_shear_reinforcment=True, dg=16, asw=(10, 5000),
          sw=(10, 1000), f_ywk=(200, 800))
for _l in (1, 2, 3):
    ldiff(P, 'v_rd', rd, L0 if _l == 3 else L, approx_lvl=_l,
          name=f'v_rd(stirrups)[{_l}]', theta=(20, 45), alpha=D([60.0]),
          gamma_c=D((1, 2)), gamma_s=D((1, 1.5)),
          assume=EXMAX, hk=dict(budget=60), **RF, **G1)
ldiff(P, 'v_rd', rd, L, approx_lvl=[0, 4, -1], name='v_rd(level)', theta=30,
      **RF, **G1)
diff(P, E + 'v_rd_ct_approx1',
     lambda f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0: 0.8 * i_c * b_w / s_c
     * m.sqrt(f_ctd ** 2 + l_x / (1.2 * l_bd0) * sigma_cp * f_ctd),
     f_ctd=(0.5, 4), i_c=(1e8, 1e11), s_c=(1e5, 1e9), b_w=(50, 1000),
     sigma_cp=(0, 20), l_x=(10, 2000), l_bd0=(50, 2000))


def ct2(f_ctd, i_c, l_x, l_bd0, S_cy, b_wy, y, y_c, A_c, A_cy, y_pt, f_p_lx,
        f_p_lx_dx):
    s = (1 / A_c + (y_c - y) * (y_c - y_pt) / i_c) * f_p_lx
    tau = (A_cy / A_c - S_cy * (y_c - y_pt) / i_c) * f_p_lx_dx / b_wy
    q = f_ctd ** 2 + l_x / (1.2 * l_bd0) * s * f_ctd
    return i_c * b_wy / S_cy * (m.sqrt(q) - tau)


CT = dict(f_ctd=(0.5, 4), i_c=(1e8, 1e11), l_x=(10, 2000), l_bd0=(50, 2000),
          S_cy=(1e5, 1e9), b_wy=(50, 1000), y=(150, 300), y_c=(100, 149),
          A_c=(2e4, 1e6), A_cy=(1e3, 2e4), y_pt=(20, 99))
diff(P, E + 'v_rd_ct_approx2', ct2, name='v_rd_ct_approx2(no prestress)',
     **CT, f_p_lx=0, f_p_lx_dx=(-2000, 2000), atol=1e-6,
     rtol=1e-6)
diff(P, E + 'v_rd_ct_approx2', ct2, name='v_rd_ct_approx2(prestress)',
     f_ctd=(1, 4), i_c=6e8, l_x=100, l_bd0=500, S_cy=3e6, b_wy=300,
     y=(110, 149), y_c=150, A_c=2e5, A_cy=1e5, y_pt=(40, 140),
     f_p_lx=(1e4, 1e6), f_p_lx_dx=10)


@harness(P, 'v_rd_ct_approx2(nothing but the recorded deviation)',
         bounds='f_ctd in [1, 4], y in [110, 149], f_p_lx in [1e4, 1e6], '
         'f_p_lx_dx in [-2000, 2000], one cross-section')
def ct2_only(c):
    a = dict(f_ctd=c.real('f_ctd', 1, 4), i_c=6e8, l_x=100, l_bd0=500,
             S_cy=3e6, b_wy=300, y=c.real('y', 110, 149), y_c=150, A_c=2e5,
             A_cy=1e5, y_pt=60, f_p_lx=c.real('F', 1e4, 1e6),
             f_p_lx_dx=c.real('dF', -2000, 2000))
    got = resolve(E + 'v_rd_ct_approx2')(**a)
    right = ct2(**a)
    s = (1 / a['A_c']) * ((a['y_c'] - a['y']) / a['i_c']) * a['f_p_lx']
    s0 = (1 / a['A_c'] + (a['y_c'] - a['y']) * 90 / a['i_c']) * a['f_p_lx']
    q = a['l_x'] / (1.2 * a['l_bd0']) * a['f_ctd']
    k = a['i_c'] * a['b_wy'] / a['S_cy']
    dev = right + k * (m.sqrt(a['f_ctd'] ** 2 + q * s)
                       - m.sqrt(a['f_ctd'] ** 2 + q * s0))
    c.check('the formula or the recorded deviation', m.OR(
        m.AND(got - right < 1, right - got < 1),
        m.AND(got - dev < 1, dev - got < 1)))


@harness(P, 'v_rd_ct dispatch', bounds='levels 1, 2, other; f_ctd, l_x, '
         'f_p_lx_dx free')
def ct_dispatch(c):
    lv = c.choice('level', [1, 2, 0, 3])
    a = dict(f_ctd=c.real('f_ctd', 0.5, 4), i_c=6e8, s_c=6e5, b_w=50,
             sigma_cp=c.real('sigma_cp', 0, 20), l_x=c.real('l_x', 10, 2000),
             l_bd0=30, S_cy=3e6, b_wy=30, y=100, y_c=200, A_c=2000,
             A_cy=1000, y_pt=80, f_p_lx=0,
             f_p_lx_dx=c.real('dF', -2000, 2000))
    f = resolve(E + 'v_rd_ct')
    if lv in (0, 3):
        c.check('rejected', c.raises(lambda: f(lv, **a)))
        return
    n = {1: ('f_ctd', 'i_c', 's_c', 'b_w', 'sigma_cp', 'l_x', 'l_bd0'),
         2: ('f_ctd', 'i_c', 'l_x', 'l_bd0', 'S_cy', 'b_wy', 'y', 'y_c',
             'A_c', 'A_cy', 'y_pt', 'f_p_lx', 'f_p_lx_dx')}[lv]
    k = {x: a[x] for x in n}
    if lv == 1:
        e = 0.8 * k['i_c'] * k['b_w'] / k['s_c'] * m.sqrt(
            k['f_ctd'] ** 2 + k['l_x'] / 36 * k['sigma_cp'] * k['f_ctd'])
    else:
        e = ct2(**k)
    c.eq('value', f(lv, **a), e, atol=1e-6)


# --------------------------------------------------------------------------
# punching and torsion

Q = 'C34'
diff(Q, E + 'b_0', lambda v_ed, v_prep_d_max: v_ed / v_prep_d_max,
     v_ed=(0, 1e7), v_prep_d_max=(1, 1e5))
diff(Q, E + 'b_s', lambda l_x, l_y: m.mn(
    1.5 * 0.22 * m.sqrt(l_x * l_y), m.mn(l_x, l_y)), l_x=(100, 20000),
    l_y=(100, 20000))
diff(Q, E + 'b_sr', lambda l_x, l_y: m.mn(l_x, l_y), l_x=(100, 20000),
     l_y=(100, 20000))


def m_ed(v_ed, e_u, b_s, inner, edge_par, edge_per, corner):
    if inner:
        return v_ed * (0.125 + m.ab(e_u) / (2 * b_s))
    if edge_par:
        return m.mx(v_ed * (0.125 + e_u / (2 * b_s)), v_ed / 4)
    if edge_per:
        return v_ed * (0.125 + e_u / b_s)
    if corner:
        return m.mx(v_ed * (0.125 + e_u / b_s), v_ed / 2)
    return REJECT


for _i, _k in enumerate(('inner', 'edge_par', 'edge_per', 'corner', None)):
    diff(Q, E + 'm_ed', m_ed, name=f'm_ed[{_k}]', v_ed=(0, 1e7),
         e_u=(-1000, 1000), b_s=(50, 10000),
         **{k: k == _k for k in ('inner', 'edge_par', 'edge_per', 'corner')})


def r_s(l_x, l_y, x_direction, is_level_three_approximation=False,
        column_edge_or_corner=False, b_sr=None):
    r = 0.22 * (l_x if x_direction else l_y)
    if is_level_three_approximation and column_edge_or_corner:
        if b_sr is None:
            return REJECT
        return m.mx(r, 0.67 * b_sr)
    return r


diff(Q, E + 'r_s', r_s, l_x=(100, 20000), l_y=(100, 20000),
     x_direction=[True, False],
     is_level_three_approximation=D([True, False]),
     column_edge_or_corner=D([True, False]), b_sr=D((50, 10000)))
diff(Q, E + 'psi_punching_level_one',
     lambda l_x, l_y, f_yd, d_eff, e_s: 1.5 * 0.22 * m.mx(l_x, l_y) * f_yd
     / (d_eff * e_s), l_x=(100, 20000), l_y=(100, 20000), f_yd=(200, 800),
     d_eff=(50, 2000), e_s=(1.8e5, 2.2e5))
diff(Q, E + 'psi_punching_level_two',
     lambda r_s, f_yd, d_eff, e_s, m_ed, m_rd, m_Pd=0: 1.5 * r_s * f_yd
     / (d_eff * e_s) * m.pow((m_ed - m_Pd) / (m_rd - m_Pd), 1.5),
     r_s=(100, 5000), f_yd=(200, 800), d_eff=(50, 2000), e_s=(1.8e5, 2.2e5),
     m_ed=(100, 1e6), m_rd=(1000, 1e6), m_Pd=D((0, 99)))
diff(Q, E + 'psi_punching_level_three',
     lambda psi_punching_level_two, is_uncracked_model=False,
     is_moment_from_uncracked_model=False: psi_punching_level_two * (
         0.8 if is_uncracked_model and is_moment_from_uncracked_model else 1),
     psi_punching_level_two=(0, 0.1), is_uncracked_model=D([True, False]),
     is_moment_from_uncracked_model=D([True, False]))
diff(Q, E + 'psi_punching',
     lambda psi_punching_level_one, psi_punching_level_two,
     psi_punching_level_three, approx_lvl_p: {
         1: psi_punching_level_one, 2: psi_punching_level_two,
         3: psi_punching_level_three}.get(approx_lvl_p, REJECT),
     psi_punching_level_one=(0, 0.1), psi_punching_level_two=(0, 0.1),
     psi_punching_level_three=(0, 0.1), approx_lvl_p=[1, 2, 3, 0, 4])
diff(Q, E + 'k_dg', lambda d_g: m.mx(32 / (16 + d_g), 0.75), d_g=(0, 64))
diff(Q, E + 'k_psi', lambda k_dg, d_eff, psi_punching: m.mn(
    1 / (1.5 + 0.9 * k_dg * d_eff * psi_punching), 0.6), k_dg=(0.75, 2),
    d_eff=(50, 2000), psi_punching=(0, 0.1))
diff(Q, E + 'v_rdc_punching',
     lambda k_psi_val, b_0, d_v, f_ck, gamma_c=1.5: k_psi_val * b_0 * d_v
     * m.sqrt(f_ck) / gamma_c, k_psi_val=(0, 0.6), b_0=(100, 20000),
     d_v=(50, 2000), f_ck=(10, 120), gamma_c=D((1, 2)))
diff(Q, 'codes.mc2010._concrete_punching.f_ywd',
     lambda f_ywk, gamma_s: f_ywk / gamma_s,
     f_ywk=(200, 800), gamma_s=(1, 2))


def sigma_swd(e_s, psi_punching, alpha, f_bd, d_eff, f_ywd, phi_w):
    s, co = m.sin(alpha * RAD), m.cos(alpha * RAD)
    return m.mn(e_s * psi_punching / 6 * (s + co) * (
        s + f_bd * d_eff / (f_ywd * phi_w)), f_ywd)


SW = dict(e_s=(1.8e5, 2.2e5), psi_punching=(0, 0.1), f_bd=(0.5, 6),
          d_eff=(50, 2000), f_ywd=(200, 800), phi_w=(4, 32))
diff(Q, E + 'sigma_swd', sigma_swd, alpha=(45, 90), **SW)
diff(Q, E + 'v_rds_punching',
     lambda f_ywd, e_u, b_u, alpha, sigma_swd, a_sw, v_ed: a_sw
     / (1 + e_u / b_u) * sigma_swd * m.sin(alpha * RAD), f_ywd=(200, 800),
     e_u=(0, 1000), b_u=(100, 5000), alpha=(45, 90), sigma_swd=(0, 800),
     a_sw=(0, 1e5), v_ed=(0, 1e7))


@harness(Q, 'v_rds_punching(warning)', bounds='f_ywd in [200, 800], e_u in '
         '[0, 1000], a_sw in [0, 1e5], v_ed in [0, 1e7], b_u=500')
def warn(c):
    f, e = c.real('f_ywd', 200, 800), c.real('e_u', 0, 1000)
    a, v = c.real('a_sw', 0, 1e5), c.real('v_ed', 0, 1e7)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        resolve(E + 'v_rds_punching')(f, e, 500, 90, 300, a, v)
    c.check('warned below half of the load',
            (len(w) > 0) == bool(a * f / (1 + e / 500) < 0.5 * v))


def rdmaxp(d_v, f_ck, d_head, stirrups_compression, b0_val, k_psi_val,
           gamma_c=1.5):
    k = 2.8 if d_head else 2.4 if stirrups_compression else 2
    b = b0_val * d_v * m.sqrt(f_ck) / gamma_c
    return m.mn(k * k_psi_val * b, b)


diff(Q, E + 'v_rd_max_punching', rdmaxp, d_v=(50, 2000), f_ck=(10, 120),
     d_head=[True, False], stirrups_compression=[True, False],
     b0_val=(100, 20000), k_psi_val=(0.01, 0.6), gamma_c=D((1, 2)))
diff(Q, E + 'v_rd_punching', lambda v_rd_c, v_rd_s, v_rd_max: m.mn(
    v_rd_c + v_rd_s, v_rd_max), v_rd_c=(0, 1e7), v_rd_s=(0, 1e7),
    v_rd_max=(0, 1e7))

diff(Q, E + 'v_ed_ti', lambda t_ed, a_k, z_i: t_ed * z_i / (2 * a_k),
     t_ed=(-1e9, 1e9), a_k=(1e3, 1e7), z_i=(10, 5000))


def trdmax(f_ck, d_k, a_k, theta, approx_lvl, z, E_s, As, loads,
           gamma_c=1.5):
    if approx_lvl == 1:
        k = 0.55
    else:
        ex = epsx(E_s, As, z, loads)
        k = keps(ex, theta if approx_lvl == 2 else 20 + 10000 * ex)
    return (k * eta(f_ck) * f_ck / gamma_c * d_k / 8 * 2 * a_k
            * m.sin(theta * RAD) * m.cos(theta * RAD))


T1 = dict(d_k=(50, 2000), a_k=(1e3, 1e7), theta=(20, 45), z=(50, 3000),
          E_s=2e5, As=(100, 1e5))
for _l in (1, 2, 3):
    ldiff(Q, 't_rd_max', trdmax, L, approx_lvl=_l, f_ck=(10, 120),
          gamma_c=D((1, 2)), name=f't_rd_max[{_l}]',
          assume=EXMAX, **T1)


def _trd(c, lv):
    loads = draw(c, L0)
    kw = draw(c, dict(t_ed=(0, 1e9), fck=(10, 120),
                      bw=(50, 3000),
                      theta=[25, 45], z=(50, 3000),
                      E_s=2e5, As=(100, 1e5),
                      d_k=(50, 2000), a_k=(1e3, 1e7),
                      alpha=D([60.0]), gamma_c=D((1, 2))))
    c.assume(epsx(2e5, kw['As'], kw['z'], loads) < 4e-3)
    ld = resolve(E + 'create_load_dict')(**loads)
    got = resolve(E + 't_rd')(approx_lvl=lv, loads=ld, **kw)
    g = kw.get('gamma_c', 1.5)
    t = trdmax(kw['fck'], kw['d_k'], kw['a_k'], kw['theta'], lv, kw['z'],
               2e5, kw['As'], loads, g)
    v = rdmax(lv, kw['fck'], kw['bw'], kw['theta'], kw['z'], 2e5, kw['As'],
              loads, kw.get('alpha', 90.0), g)
    u = (kw['t_ed'] / t) ** 2 + (loads['Ved'] / v) ** 2
    if got:
        c.le('verified only inside the interaction circle', u, 1, rtol=1e-6)
    else:
        c.le('refused only outside the interaction circle', 1, u, rtol=1e-6)


for _l in (1, 2, 3):
    harness(Q, f't_rd[{_l}]', bounds='t_ed in [0, 1e9], Ved in [0, 5e6], '
            'theta 25 or 45, alpha 60 or default, the other arguments free',
            budget=60)(lambda c, _l=_l: _trd(c, _l))
