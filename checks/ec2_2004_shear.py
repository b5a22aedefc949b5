"""EN 1992-1-1:2004 section 6.2: shear."""

import math

from symx import m
from symx.diff import OUT, REJECT, D, diff

P = 'C27'
E = 'codes.ec2_2004.shear.'
F = dict(fck=(12, 90), bw=(50, 2000), d=(50, 3000))


def k(d):
    return m.mn(1 + m.sqrt(200 / d), 2)


def rad(x):
    return x * math.pi / 180


def cot(x):
    if not m._s(x) and x == 90:
        return 0.0
    return m.cos(rad(x)) / m.sin(rad(x))


def theta_state(theta, lo=1.0, hi=2.5):
    """True/False: must be accepted / rejected; None: tolerance band."""
    ct = cot(theta)
    if ct < lo - 0.006 or ct > hi + 0.006:
        return False
    if ct >= lo - 0.0045 and ct <= hi + 0.0045:
        return True
    return None


def alpha_cw(Ned, Ac, fcd):
    r = Ned / Ac / fcd
    if r <= 0:
        return 1
    if r <= 0.25:
        return 1 + r
    if r <= 0.5:
        return 1.25
    if r < 1:
        return 2.5 * (1 - r)
    return REJECT


diff(P, E + 'alpha_cw', alpha_cw, Ned=(-1e6, 1e7), Ac=(1e3, 1e6),
     fcd=(5, 80))


def vmin(fck, d):
    return 0.035 * m.sqrt(k(d)) ** 3 * m.sqrt(fck)


diff(P, E + 'vmin', vmin, fck=(12, 90), d=(50, 3000))


def VRdc(fck, d, Asl, bw, NEd, Ac, fcd, k1=0.15, gamma_c=1.5, CRdc=None):
    c = CRdc if CRdc is not None else 0.18 / gamma_c
    rho = m.mn(Asl / (bw * d), 0.02)
    s = m.mn(NEd / Ac, 0.2 * fcd)
    v1 = c * k(d) * m.cbrt(100 * rho * fck) + k1 * s
    v2 = vmin(fck, d) + k1 * s
    return m.mx(m.mx(v1, v2) * bw * d, 0)


_V = dict(fck=(12, 90), d=(50, 3000), Asl=(1, 1e5), bw=(50, 2000),
          NEd=(-1e6, 1e6), Ac=(1e4, 1e6), fcd=(5, 80))
diff(P, E + 'VRdc', VRdc, k1=D((0.05, 0.3)), gamma_c=D((1, 2)),
     CRdc=D((0.05, 0.3)), **_V)


def VRdc_prin(Iy, bw, S, fctd, NEd, Ac, L_x=None, L_pt2=None):
    al = 1 if L_x is None or L_pt2 is None else m.mn(L_x / L_pt2, 1)
    q = fctd * fctd + al * NEd / Ac * fctd
    if q < 0:
        return OUT
    return Iy * bw / S * m.sqrt(q)


diff(P, E + 'VRdc_prin_stress', VRdc_prin, Iy=(1e6, 1e12), bw=(50, 2000),
     S=(1e4, 1e9), fctd=(0.5, 4), NEd=(-1e5, 1e7), Ac=(1e4, 1e6),
     L_x=D((1, 3000)), L_pt2=D((1, 3000)))
diff(P, E + 'v', lambda fck: 0.6 * (1 - fck / 250), fck=(12, 120))
diff(P, E + 'v1',
     lambda fck: 0.6 if fck <= 60 else m.mx(0.9 - fck / 200, 0.5),
     fck=(12, 120))
diff(P, E + 'VEdmax_unreinf', lambda bw, d, fck, fcd: 0.5 * bw * d * 0.6 * (
    1 - fck / 250) * fcd, fcd=(5, 80), **F)


def VRds(Asw, s, z, theta, fyk, alpha=90, gamma_s=1.15):
    st = theta_state(theta)
    if st is None:
        return OUT
    if not st:
        return REJECT
    return Asw / s * z * fyk / gamma_s * (cot(theta) + cot(alpha)) * m.sin(
        rad(alpha))


_A = D((45, 89))
diff(P, E + 'VRds', VRds, Asw=(1, 1e4), s=(20, 1000), z=(50, 3000),
     theta=(15, 60), fyk=(200, 700), alpha=_A, gamma_s=D((1, 1.5)))
diff(P, E + 'Asw_s_required',
     lambda Ved, z, theta, fywd, alpha=90: Ved / z / fywd / (
         cot(theta) + cot(alpha)) / m.sin(rad(alpha)),
     Ved=(0, 1e7), z=(50, 3000), theta=(15, 60), fywd=(150, 600), alpha=_A)


def VRdmax(bw, z, fck, theta, NEd, Ac, fcd, alpha=90, limit_fyd=False):
    st = theta_state(theta)
    if st is None:
        return OUT
    if not st:
        return REJECT
    acw = alpha_cw(NEd, Ac, fcd)
    if acw is REJECT:
        return REJECT
    if limit_fyd:
        nu = 0.6 if fck <= 60 else m.mx(0.9 - fck / 200, 0.5)
    else:
        nu = 0.6 * (1 - fck / 250)
    return acw * bw * z * nu * fcd * (cot(theta) + cot(alpha)) / (
        1 + cot(theta) ** 2)


diff(P, E + 'VRdmax', VRdmax, bw=(50, 2000), z=(50, 3000), fck=(12, 90),
     theta=(15, 60), NEd=(-1e6, 1e7), Ac=(1e4, 1e6), fcd=(5, 80),
     alpha=_A, limit_fyd=D([True, False]))


def Asw_max(fcd, fck, bw, s, fywd, NEd, Ac, alpha=90):
    acw = alpha_cw(NEd, Ac, fcd)
    if acw is REJECT:
        return REJECT
    return 0.5 * acw * 0.6 * (1 - fck / 250) * fcd * bw * s / (
        fywd * m.sin(rad(alpha)))


diff(P, E + 'Asw_max', Asw_max, fcd=(5, 80), fck=(12, 90), bw=(50, 2000),
     s=(20, 1000), fywd=(150, 600), NEd=(-1e6, 1e7), Ac=(1e4, 1e6),
     alpha=_A)
