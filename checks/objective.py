"""C10: the response does not depend on where the section is drawn."""

import math
from fractions import Fraction as F

from symx.harness import harness

from .marin_section import (
    DIRS, LAWS, NEAR, OUTLINES, clear_limits, make, strain_of,
)
from .ultimate import ANGLES, Response, S

OUT = (
    'shapely (stand-in symx/geo.py, compared with the real library at the '
    'witness of every path); floating point rounding; other sections'
)
TURN = {
    '90': (math.pi / 2, 0, 1), '180': (math.pi, -1, 0),
    '37': (math.atan2(3, 4), F(4, 5), F(3, 5)),
    '-127': (math.atan2(-4, -3), F(-3, 5), F(-4, 5)),
}
BARS = [(-100, -200, 20), (100, -180, 16), (20, 210, 12)]


def response(c, g, strain, mode):
    from structuralcodes.sections import GenericSection

    return GenericSection(g).section_calculator.integrate_strain_profile(
        list(strain), mode)


def vector(r, mode):
    """Forces or stiffness as tensors in the coordinates (1, y, z)."""
    if mode == 'stress':
        N, My, Mz = r[0], r[1], r[2]
        return [N, -Mz, My]
    s = (1, -1, 1)
    p = (0, 2, 1)
    return [[r[p[i], p[j]] * s[i] * s[j] for j in range(3)]
            for i in range(3)]


def moved(t, M, mode):
    """The tensor t of moments of (1, y, z) after the map M of (1, y, z)."""
    if mode == 'stress':
        return [sum(M[i][j] * t[j] for j in range(3)) for i in range(3)]
    return [[sum(M[i][k] * t[k][m] * M[j][m] for k in range(3)
                 for m in range(3)) for j in range(3)] for i in range(3)]


def compare(c, got, want, mode, tol=None):
    if mode == 'stress':
        for nm, g, w in zip(('N', '-Mz', 'My'), got, want):
            c.eq(nm, g, w, atol=tol or (1e-2 if nm == 'N' else 10.0))
        return
    for i in range(3):
        for j in range(3):
            c.eq(f'stiffness {i}{j}', got[i][j], want[i][j],
                 atol=tol or (10.0, 1e4, 1e6)[(i > 0) + (j > 0)])


def section(c, outline, law, steel):
    pl = {n: LAWS[n]() for n in {law, steel}}
    return make(c, [(OUTLINES[outline], pl[law][0])],
                [(*b, pl[steel][0]) for b in BARS]), pl


@harness('C10', 'translation', params=[
    dict(outline=o, law=n, axis=a, free=f) for o, n in (
        ('rectangle', 'parabola'), ('tee', 'bilinear'), ('hole', 'elastic'),
    ) for a in DIRS for f in ('translation', 'strain')
    if f != 'strain' or (o, a) not in (
        ('tee', 'yz'), ('tee', 'z'), ('rectangle', 'yz'))
], bounds='every translation within 2000 at three strain profiles, or every '
    'axial strain in +-0.004 and curvature in +-3e-5 at one translation; '
    'curvature about y, z, an inclined axis or none; stress and stiffness',
    stubs=['shapely'], outside=OUT, budget=80)
def translation(c, outline, law, axis, free):
    mode = c.choice('integrate', ['stress', 'modulus'])
    g, pl = section(c, outline, law, 'plastic')
    if free == 'translation':
        dx, dy = c.real('dx', -2000, 2000), 120
        if c.choice('direction', ['y', 'z']) == 'z':
            dx, dy = dy, dx
        a, b = DIRS[axis]
        e0, k = c.choice('strain', [
            (F(-5, 10000), F(-1, 10**5)), (F(12, 10000), F(2, 10**5)),
            (F(-45, 10000), F(11, 10**6)),
        ])
        e = (e0, a * k, b * k)
        if not c.symbolic:
            e = tuple(float(x) for x in e)
    else:
        dx, dy = 370, -1250
        e = strain_of(c, axis)
        clear_limits(c, pl, e, BARS, axis)
    e0, ky, kz = e
    # the same strain at every point
    e2 = (e0 - ky * dy + kz * dx, ky, kz)
    a = vector(response(c, g, e, mode), mode)
    b = vector(response(c, g.translate(dx, dy), e2, mode), mode)
    M = [[1, 0, 0], [dx, 1, 0], [dy, 0, 1]]
    compare(c, b, moved(a, M, mode), mode)


@harness('C10', 'rotation', params=[
    dict(outline=o, law=n, axis=a, turn=t) for o, n in (
        ('rectangle', 'parabola'), ('triangle', 'elastic'),
    ) for a in DIRS for t in TURN
    if t == '37' or (t == '90' or o == 'rectangle') and a != 'yz'
] + [dict(outline='triangle', law='elastic', axis=a, turn='37')
     for a in NEAR], bounds='every axial strain in +-0.004 and curvature in +-3e-5 about y, z, '
    'axes inclined strongly or very slightly, or none; rotation of the section by 90, 180, 37 and '
    '-127 degrees; stress and stiffness', stubs=['shapely'], outside=OUT,
    budget=80)
def rotation(c, outline, law, axis, turn):
    th, cs, sn = TURN[turn]
    mode = c.choice('integrate', ['stress', 'modulus'])
    g, pl = section(c, outline, law, 'elastic')
    e0, ky, kz = strain_of(c, axis)
    clear_limits(c, pl, (e0, ky, kz), BARS, axis)
    # gradient (-kz, ky) turns with the section
    gy, gz = -kz, ky
    e2 = (e0, sn * gy + cs * gz, -(cs * gy - sn * gz))
    a = vector(response(c, g, (e0, ky, kz), mode), mode)
    b = vector(response(c, g.rotate(th), e2, mode), mode)
    M = [[1, 0, 0], [0, cs, -sn], [0, sn, cs]]
    compare(c, b, moved(a, M, mode), mode)


@harness('C10', 'dimensions in metres', params=[
    dict(law=n, move=v) for n, v in (
        ('elastic', 'translation'), ('bilinear', 'fixed translation'),
        ('elastic', '37'), ('bilinear', '90'))
], bounds='rectangle in metres, every axial strain in +-0.004 and curvature '
    'of 1e-4 to 0.03 per metre about y or z; any translation to 2 metres '
    '(elastic) or one; rotations by 37 and 90 degrees; stress and stiffness',
    stubs=['shapely'], outside=OUT, budget=80)
def in_metres(c, law, move):
    mode = c.choice('integrate', ['stress', 'modulus'])
    pl = LAWS[law]()
    g = make(c, [(OUTLINES['rectangle m'], pl[0])], [])
    axis = c.choice('axis', ['y', 'z'])
    if move == 'translation':
        # (products of strains and translation)
        e0, k = F(-5, 10000), F(-1, 100)
        a, b = DIRS[axis]
        e0, ky, kz = e0, a * k, b * k
        if not c.symbolic:
            e0, ky, kz = float(e0), float(ky), float(kz)
    else:
        e0, ky, kz = strain_of(c, axis, ks=(1e-4, 0.03))
    if 'translation' in move:
        dx, dy = 0.37, -1.25
        if move == 'translation':
            dx = c.real('dx', -2, 2)
        g2 = g.translate(dx, dy)
        if c.symbolic and move != 'translation':
            dx, dy = F(37, 100), F(-125, 100)
        e2 = (e0 - ky * dy + kz * dx, ky, kz)
        M = [[1, 0, 0], [dx, 1, 0], [dy, 0, 1]]
    else:
        th, cs, sn = TURN[move]
        g2 = g.rotate(th)
        gy, gz = -kz, ky
        e2 = (e0, sn * gy + cs * gz, -(cs * gy - sn * gz))
        M = [[1, 0, 0], [0, cs, -sn], [0, sn, cs]]
    a = vector(response(c, g, (e0, ky, kz), mode), mode)
    b = vector(response(c, g2, e2, mode), mode)
    compare(c, b, moved(a, M, mode), mode, 1e-6)


@harness('C10', 'ultimate states', params=[
    dict(kind=k, move=m) for k, m in (
        ('reinforced', 'up'), ('reinforced', '37'), ('reinforced', '180'),
        ('reinforced 2', 'right'), ('reinforced 2', '90'), ('steel', 'up'),
        ('steel', '-127'), ('composite', 'up'), ('composite', '37'),
    )
], bounds='symbolic dimensions, strain limits, axial load and translation; '
    'any axial forces (the same ones for both sections) in up to 3 steps of '
    'the search; rotations of section and neutral axis by 37, 90, 180 and '
    '-127 degrees', stubs=['shapely', 'the integrator'], outside=OUT,
    budget=80)
def ultimate(c, kind, move):
    from structuralcodes.sections import GenericSection

    s = S(c, kind)
    n = c.real('n', -1e7, 1e7)
    th = ANGLES['0']
    adv = Response(c, 7)
    s.calc.integrator = adv
    if move in TURN:
        t2, cs, sn = TURN[move]
        g2 = s.geometry.rotate(t2)
    else:
        d = c.real('d', -5000, 5000)
        t2, cs, sn = 0.0, 1, 0
        dx, dy = (d, 70) if move == 'right' else (-30, d)
        g2 = s.geometry.translate(dx, dy)
    k2 = GenericSection(g2).section_calculator
    adv2 = Response(c, 7)
    k2.integrator = adv2
    out = []
    for k, a in ((s.calc, th), (k2, th + t2)):
        try:
            out.append(k.calculate_bending_strength(theta=a, n=n))
        except ValueError:
            out.append(None)
    a, b = out
    c.check('both or none refused', (a is None) == (b is None))
    if a is None or b is None:
        return
    gy, gz = -a.chi_z, a.chi_y
    c.eq('curvature y', b.chi_y, sn * gy + cs * gz, atol=1e-10)
    c.eq('curvature z', b.chi_z, -(cs * gy - sn * gz), atol=1e-10)
    e = a.eps_a
    if move not in TURN:
        e = e - a.chi_y * dy + a.chi_z * dx
    c.eq('axial strain', b.eps_a, e, atol=1e-7)
