"""Helpers shared by the geometry and section checks."""

from symx import geo, m  # noqa: F401
from symx.m import ab


def mats():
    from structuralcodes.materials.basic import ElasticMaterial

    return (
        ElasticMaterial(E=200000, density=7850, name='s'),
        ElasticMaterial(E=30000, density=2500, name='c'),
    )


def ring(r):
    """Vertices of a closed ring, without the repeated last one."""
    return list(r.coords)[:-1]


def rings(p):
    return [ring(p.exterior)] + [ring(i) for i in p.interiors]


def moments(rs):
    """Exact area, Sx=int x, Sy=int y, Ixx=int x2, Iyy=int y2, Ixy over
    rings; the first ring counts positive, the others negative.
    """
    out = [0] * 6
    for k, r in enumerate(rs):
        t = signed_moments(r)
        pos = bool(t[0] > 0)
        s = 1 if pos == (k == 0) else -1
        out = [a + s * b for a, b in zip(out, t)]
    return out


def pmoments(p):
    """The same of a polygon, whose rings know their orientation."""
    out = [0] * 6
    for k, g in enumerate([p.exterior] + list(p.interiors)):
        s = 1 if bool(g.is_ccw) == (k == 0) else -1
        out = [a + s * b for a, b in zip(out, signed_moments(ring(g)))]
    return out


def signed_moments(r):
    t = [0] * 6
    n = len(r)
    for i in range(n):
        (x0, y0), (x1, y1) = r[i], r[(i + 1) % n]
        c = x0 * y1 - x1 * y0
        t[0] = t[0] + c / 2
        t[1] = t[1] + c * (x0 + x1) / 6
        t[2] = t[2] + c * (y0 + y1) / 6
        t[3] = t[3] + c * (x0 * x0 + x0 * x1 + x1 * x1) / 12
        t[4] = t[4] + c * (y0 * y0 + y0 * y1 + y1 * y1) / 12
        t[5] = t[5] + c * (
            x0 * y1 + 2 * x0 * y0 + 2 * x1 * y1 + x1 * y0
        ) / 24
    return t


NAMES = ('area', 'int y', 'int z', 'int yy', 'int zz', 'int yz')


def coords_of(x):
    return [float(v) if not hasattr(v, 'n') else v for v in x]


def eq_pts(c, name, got, want, atol=1e-6):
    c.check(f'{name}: number of vertices', len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        c.eq(f'{name}: vertex {i} x', g[0], w[0], atol=atol)
        c.eq(f'{name}: vertex {i} y', g[1], w[1], atol=atol)


assert ab
