"""fib Model Code 2010: interfaces and bond-slip (C35)."""

import math
import warnings

from symx import m
from symx.diff import REJECT, diff, resolve
from symx.harness import harness

P = 'C35'
E = 'codes.mc2010.'
RAD = math.pi / 180

diff(P, E + 'tau_edi', lambda beta, v_ed, z, b_i: beta * v_ed / (z * b_i),
     beta=(0, 1), v_ed=(0, 1e7), z=(50, 3000), b_i=(50, 3000))


def nu(f_ck):
    return m.mn(0.55 * m.cbrt(30 / f_ck), 0.55)


diff(P, E + 'tau_rdi_without_reinforcement',
     lambda c_a, f_ctd, mu, sigma_n, f_ck, f_cd: m.mn(
         c_a * f_ctd + mu * sigma_n, 0.5 * nu(f_ck) * f_cd),
     c_a=(0, 1), f_ctd=(0.5, 4), mu=(0.3, 2), sigma_n=(0, 20),
     f_ck=(10, 120), f_cd=(5, 80))


def rdi(c_r, k1, k2, mu, ro, sigma_n, alpha, beta_c, f_ck, f_yd, f_cd):
    a = alpha * RAD
    return m.mn(
        c_r * m.cbrt(f_ck) + mu * sigma_n
        + k1 * ro * f_yd * (mu * m.sin(a) + m.cos(a))
        + k2 * ro * m.sqrt(f_yd * f_cd), beta_c * nu(f_ck) * f_cd)


diff(P, E + 'tau_rdi_with_reinforcement', rdi, c_r=(0, 0.2), k1=(0, 1),
     k2=(0, 1.5), mu=(0.3, 2), ro=(0, 0.05), sigma_n=(0, 20),
     alpha=(20, 135), beta_c=(0.3, 0.6), f_ck=(10, 120), f_yd=(200, 800),
     f_cd=(5, 80))

BOND = ['good', 'other', 'Good', 'OTHER', 'bad', None]


def bond(v, good, other):
    if not isinstance(v, str):
        return REJECT
    return {'good': good, 'other': other}.get(v.lower(), REJECT)


diff(P, E + 'eta_2', lambda bond: globals()['bond'](bond, 1.0, 0.7),
     bond=BOND)
diff(P, E + 's_1', lambda bond: globals()['bond'](bond, 1.0, 1.8), bond=BOND)
diff(P, E + 's_2', lambda bond: globals()['bond'](bond, 2.0, 3.6), bond=BOND)
diff(P, E + 'tau_bmax', lambda bond, f_cm: globals()['bond'](
    bond, 2.5 * m.sqrt(f_cm), 1.25 * m.sqrt(f_cm)), bond=BOND,
    f_cm=(10, 130))


def s_3(failmod, bond, confinement, c_clear, s_1):
    f = failmod.lower() if isinstance(failmod, str) else None
    b = bond.lower() if isinstance(bond, str) else None
    q = confinement.lower() if isinstance(confinement, str) else None
    if b not in ('good', 'other'):
        return REJECT
    if f == 'po':
        return c_clear
    if f != 'sp' or q not in ('unconfined', 'stirrups'):
        return REJECT
    return 1.2 * s_1 if q == 'unconfined' else 0.5 * c_clear


diff(P, E + 's_3', s_3, failmod=['PO', 'sp', 'SP', 'xx', None],
     bond=['good', 'Other', 'bad', None],
     confinement=['unconfined', 'Stirrups', 'stirrups', 'bad'],
     c_clear=(1, 50), s_1=(0.5, 3))
diff(P, E + 'tau_bu_split',
     lambda eta_2, f_cm, phi, c_min, c_max, k_m, K_tr: eta_2 * 6.5 * m.pow(
         f_cm / 25, 0.25) * m.pow(25 / phi, 0.2) * (
         m.pow(c_min / phi, 0.33) * m.pow(c_max / c_min, 0.1) + k_m * K_tr),
     eta_2=[0.7, 1.0], f_cm=(10, 130), phi=(4, 50), c_min=(5, 200),
     c_max=(5, 500), k_m=(0, 12), K_tr=(0, 0.05))
diff(P, E + 'K_tr', lambda n_t, A_st, n_b, phi, s_t: m.mn(
    n_t * A_st / (n_b * phi * s_t), 0.05), n_t=(0, 10), A_st=(10, 1000),
    n_b=(1, 20), phi=(4, 50), s_t=(20, 1000))
diff(P, E + 's_tau_bu_split',
     lambda tau_bmax, tau_bu_split, alpha, s_1: m.pow(
         tau_bu_split / tau_bmax, 1 / alpha) * s_1,
     tau_bmax=(1, 30), tau_bu_split=(0.1, 30), alpha=[0.4, 0.5, 0.25],
     s_1=(0.5, 3))
diff(P, E + 'f_stm',
     lambda f_cm, phi, l_b, c_min, c_max, k_m, K_tr: 54 * m.pow(
         f_cm / 25, 0.25) * m.pow(25 / phi, 0.2) * m.pow(l_b / phi, 0.55) * (
         m.pow(c_min / phi, 0.25) * m.pow(c_max / c_min, 0.1) + k_m * K_tr),
     f_cm=(10, 130), phi=(4, 50), l_b=(20, 2000), c_min=(5, 200),
     c_max=(5, 500), k_m=(0, 12), K_tr=(0, 0.1))
diff(P, E + 'tau_yield', lambda f_y, l_b, phi: f_y * phi / (4 * l_b),
     f_y=(200, 800), l_b=(20, 2000), phi=(4, 50))


@harness(P, 'f_stm(warnings)', bounds='f_cm in [10, 130], phi=20, c_min in '
         '[5, 100], c_max in [5, 500], K_tr in [0, 0.1]')
def warn(c):
    a = dict(f_cm=c.real('f_cm', 10, 130), phi=20, l_b=300,
             c_min=c.real('c_min', 5, 100), c_max=c.real('c_max', 5, 500),
             k_m=12, K_tr=c.real('K_tr', 0, 0.1))
    r = a['c_max'] / a['c_min']
    ok = [m.AND(15 < a['f_cm'], a['f_cm'] < 110),
          m.AND(10 < a['c_min'], a['c_min'] < 70), m.AND(1 < r, r < 5),
          a['K_tr'] <= 0.05]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        resolve(E + 'f_stm')(**a)
    c.check('one warning for each exceeded range',
            len(w) == sum(not bool(x) for x in ok))
