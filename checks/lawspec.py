"""Independent definitions of the constitutive laws (oracles).

Every entry: draw(c) -> parameters, make(p) -> law of the real code,
stress(p, e) / tangent(p, e) by the defining equation, kinks(p) strains where
the curve is not smooth, limits(p, yielding), beyond(p): what happens outside
the limits ('zero', 'plateau', 'none' = no limit on the curve).
"""

import numpy as np

from symx import m


def _laws():
    import structuralcodes.materials.constitutive_laws as L

    return L


class Spec:
    poly = True     # provides exact polynomial pieces
    span = (-0.02, 0.02)
    zero_inside = True


class Elastic(Spec):
    name = 'elastic'
    bounds = 'E in [1, 1e6]'

    def draw(self, c):
        return dict(E=c.real('E', 1, 1e6))

    def make(self, p):
        return _laws().Elastic(p['E'])

    def stress(self, p, e):
        return p['E'] * e

    def tangent(self, p, e):
        return p['E']

    def kinks(self, p):
        return []

    def limits(self, p, yielding=False):
        return (-100, 100)

    beyond = 'none'


class ElasticLimited(Elastic):
    name = 'elastic_limited'
    bounds = 'E in [1, 1e6]; limits of either order in [-0.1, 0.1]'

    def draw(self, c):
        return dict(E=c.real('E', 1, 1e6), a=c.real('a', -0.1, -0.001),
                    b=c.real('b', 0.001, 0.1),
                    sw=c.choice('swapped', [False, True]))

    def make(self, p):
        t = (p['b'], p['a']) if p['sw'] else (p['a'], p['b'])
        return _laws().Elastic(p['E'], eps_u=t)

    def limits(self, p, yielding=False):
        return (p['a'], p['b'])


class ElasticPlastic(Spec):
    name = 'elasticplastic'
    bounds = ('E in [1000, 3e5], yield strain in [0.0005, 0.005], '
              'Eh in [-E/20, E/2], '
              'ultimate strain in [0.006, 0.1]; softening without reversal of '
              'the stress')
    hard, lim = True, True
    span = (-0.12, 0.12)

    def draw(self, c):
        p = dict(E=c.real('E', 1000, 3e5), ey=c.real('ey', 0.0005, 0.005))
        p['fy'] = p['E'] * p['ey']
        p['Eh'] = c.real('rh', -0.05, 0.5) * p['E'] if self.hard else 0.0
        p['eu'] = c.real('eu', 0.006, 0.1) if self.lim else None
        if self.hard:
            # softening does not reverse the stress
            c.assume(p['fy'] + p['Eh'] * (0.12 - p['ey']) > 0)
        return p

    def make(self, p):
        return _laws().ElasticPlastic(p['E'], p['fy'], p['Eh'], p['eu'])

    def stress(self, p, e):
        if p['eu'] is not None and m.OR(e > p['eu'], e < -p['eu']):
            return 0.0
        if e > p['ey']:
            return p['fy'] + p['Eh'] * (e - p['ey'])
        if e < -p['ey']:
            return -p['fy'] + p['Eh'] * (e + p['ey'])
        return p['E'] * e

    def tangent(self, p, e):
        if p['eu'] is not None and m.OR(e > p['eu'], e < -p['eu']):
            return 0.0
        if m.OR(e > p['ey'], e < -p['ey']):
            return p['Eh']
        return p['E']

    def kinks(self, p):
        k = [p['ey'], -p['ey']]
        return k + ([p['eu'], -p['eu']] if p['eu'] is not None else [])

    def limits(self, p, yielding=False):
        if yielding:
            return (-p['ey'], p['ey'])
        if p['eu'] is None:
            return (-2 * p['ey'], 2 * p['ey'])
        return (-p['eu'], p['eu'])

    @property
    def beyond(self):
        return 'zero' if self.lim else 'none'


class PerfectlyPlastic(ElasticPlastic):
    name = 'elasticperfectlyplastic'
    hard = False


class PlasticUnlimited(ElasticPlastic):
    name = 'elasticplastic_nolimit'
    lim = False


def neg(c, name, lo, hi, signs):
    """A compressive parameter given with either sign."""
    v = c.real(name, lo, hi)
    return v, (v if signs else -v)


class Bilinear(Spec):
    name = 'bilinear'
    bounds = ('fc in [1, 150], eps_c in [0.0005, 0.003], eps_cu up to 0.004 '
              'above it, all given positive or negative')
    ratio = (0.1, 4)

    def draw(self, c):
        s = c.choice('sign', [-1, 1])
        fc = c.real('fc', 1, 150)
        e1 = c.real('ec1', 0.0005, 0.003)
        e2 = e1 + c.real('de', 0.0002, 0.004)
        return dict(fc=fc, e1=e1, e2=e2, s=s)

    def make(self, p):
        s = p['s']
        return _laws().BilinearCompression(
            s * p['fc'], s * p['e1'], s * p['e2'])

    def stress(self, p, e):
        if e > 0:
            return 0.0
        if e < -p['e2']:
            return 0.0
        if e < -p['e1']:
            return -p['fc']
        return p['fc'] / p['e1'] * e

    def tangent(self, p, e):
        if m.OR(e > 0, e <= -p['e1']):
            return 0.0
        return p['fc'] / p['e1']

    def kinks(self, p):
        return [0.0, -p['e1'], -p['e2']]

    def limits(self, p, yielding=False):
        return (-p['e1'] if yielding else -p['e2'], 100)

    beyond = 'zero'


class ParabolaRectangle(Bilinear):
    name = 'parabolarectangle'
    bounds = Bilinear.bounds + '; exponent 2'
    n = 2

    def draw(self, c):
        p = super().draw(c)
        p['n'] = self.n
        return p

    def make(self, p):
        s = p['s']
        return _laws().ParabolaRectangle(
            s * p['fc'], s * p['e1'], s * p['e2'], p['n'])

    def stress(self, p, e):
        if m.OR(e > 0, e < -p['e2']):
            return 0.0
        if e < -p['e1']:
            return -p['fc']
        x = 1 + e / p['e1']
        return -p['fc'] * (1 - m.pow(x, p['n']))

    def tangent(self, p, e):
        if m.OR(e > 0, e < -p['e1']):
            return 0.0
        x = 1 + e / p['e1']
        n = p['n']
        return n * p['fc'] / p['e1'] * m.pow(x, n - 1)


class ParabolaRectangleN(ParabolaRectangle):
    name = 'parabolarectangle_n'
    bounds = Bilinear.bounds + '; exponent in [1.1, 2.5]'
    poly = False

    def draw(self, c):
        p = Bilinear.draw(self, c)
        p['n'] = c.real('n', 1.1, 2.5)
        return p


class Sargin(Bilinear):
    name = 'sargin'
    bounds = Bilinear.bounds + '; k in [1.01, 4]'
    poly = False

    def draw(self, c):
        p = super().draw(c)
        p['k'] = c.real('k', 1.01, 4)
        # the ascending/descending curve is defined (positive denominator)
        c.assume(1 + (p['k'] - 2) * p['e2'] / p['e1'] > 0.05)
        return p

    def make(self, p):
        s = p['s']
        return _laws().Sargin(
            s * p['fc'], s * p['e1'], s * p['e2'], p['k'])

    def stress(self, p, e):
        if m.OR(e > 0, e < -p['e2']):
            return 0.0
        h = -e / p['e1']
        return -p['fc'] * (p['k'] * h - h * h) / (1 + (p['k'] - 2) * h)

    def tangent(self, p, e):
        if m.OR(e > 0, e < -p['e2']):
            return 0.0
        h = -e / p['e1']
        k = p['k']
        d = 1 + (k - 2) * h
        return p['fc'] / p['e1'] * (
            ((k - 2 * h) * d - (k * h - h * h) * (k - 2)) / (d * d))

    def kinks(self, p):
        return [0.0, -p['e2']]


class Popovics(Bilinear):
    name = 'popovics'
    bounds = ('fc in [5, 120], eps_c in [0.0015, 0.003], eps_cu up to 0.004 '
              'above it; Ec given as 1.1 to 4 times fc/eps_c or default')
    poly = False

    def draw(self, c):
        s = c.choice('sign', [-1, 1])
        fc = c.real('fc', 5, 120)
        e1 = c.real('ec1', 0.0015, 0.003)
        p = dict(fc=fc, e1=e1, e2=e1 + c.real('de', 0.0002, 0.004), s=s)
        if c.choice('Ec?', ['given', 'default']) == 'given':
            p['Ec'] = c.real('r', 1.1, 4) * fc / e1
            p['E'] = p['Ec']
        else:
            p['Ec'] = None
            p['E'] = 5000 * m.sqrt(fc)
            c.assume(p['E'] > 1.05 * fc / e1)
        p['n'] = p['E'] / (p['E'] - fc / e1)
        return p

    def make(self, p):
        s = p['s']
        return _laws().Popovics(
            s * p['fc'], s * p['e1'], s * p['e2'], p['Ec'])

    def stress(self, p, e):
        if m.OR(e > 0, e < -p['e2']):
            return 0.0
        if e == 0:
            return 0.0
        h = -e / p['e1']
        n = p['n']
        return -p['fc'] * h * n / (n - 1 + m.pow(h, n))

    def tangent(self, p, e):
        if m.OR(e > 0, e < -p['e2']):
            return 0.0
        if e == 0:
            return p['E']
        h = -e / p['e1']
        n = p['n']
        hn = m.pow(h, n)
        d = n - 1 + hn
        return p['fc'] / p['e1'] * n * (n - 1) * (1 - hn) / (d * d)

    def kinks(self, p):
        return [0.0, -p['e2']]


class UserDefined(Spec):
    name = 'userdefined'
    bounds = ('polyline of four points with arbitrary ordinates in '
              '[-500, 500], flag 0 to 3')
    span = (-0.02, 0.02)
    sided = False

    def draw(self, c):
        if self.sided:
            x = [0.0, c.real('x1', 0.0005, 0.003)]
            x.append(x[1] + c.real('d2', 0.0005, 0.01))
            y = [0.0] + [c.real(f'y{i}', -500, 500) for i in (1, 2)]
            X = [-x[2], -x[1]] + x
            Y = [-y[2], -y[1]] + y
        else:
            a = c.real('xa', -0.005, -0.003)
            x = [a, c.real('xb', -0.002, -0.0005),
                 c.real('xc', 0.0005, 0.002), c.real('xd', 0.003, 0.005)]
            y = [c.real(f'y{i}', -500, 500) for i in range(4)]
            X, Y = x, y
        return dict(x=x, y=y, X=X, Y=Y,
                    flag=c.choice('flag', [0, 1, 2, 3]))

    def make(self, p):
        return _laws().UserDefined(p['x'], p['y'], flag=p['flag'])

    def _out(self, p, e, tangent):
        X, Y, f = p['X'], p['Y'], p['flag']
        i, j = (0, 1) if e < 0 else (-1, -2)
        if f == 0:
            return 0.0
        if f == 1:
            return 0.0 if tangent else Y[i]
        s = ((Y[i] - Y[j]) / (X[i] - X[j])) if f == 2 else Y[i] / X[i]
        return s if tangent else Y[i] + s * (e - X[i])

    def stress(self, p, e):
        X, Y = p['X'], p['Y']
        if m.OR(e < X[0], e > X[-1]):
            return self._out(p, e, False)
        return m.interp(e, X, Y)

    def tangent(self, p, e):
        X, Y = p['X'], p['Y']
        if m.OR(e < X[0], e > X[-1]):
            return self._out(p, e, True)
        for k in range(len(X) - 1):
            if e <= X[k + 1]:
                return (Y[k + 1] - Y[k]) / (X[k + 1] - X[k])

    def kinks(self, p):
        return list(p['X'])

    def limits(self, p, yielding=False):
        return (p['X'][0], p['X'][-1])

    beyond = 'flag'


class UserDefinedOneSided(UserDefined):
    name = 'userdefined_reflected'
    bounds = ('polyline through the origin and two positive strains, '
              'reflected by the law, flag 0 to 3')
    sided = True


class UserDefinedSmall(UserDefined):
    name = 'userdefined_small'
    bounds = 'polyline of three points (outer strains fixed), flag 0 or 1'

    def draw(self, c):
        x = [-0.004, c.real('xb', -0.0001, 0.0004), 0.006]
        y = [c.real(f'y{i}', -500, 500) for i in range(3)]
        return dict(x=x, y=y, X=x, Y=y, flag=c.choice('flag', [0, 1]))


EXTRA = {'userdefined_small': UserDefinedSmall()}
SPECS = {
    s.name: s for s in (
        Elastic(), ElasticLimited(), ElasticPlastic(), PerfectlyPlastic(),
        PlasticUnlimited(), Bilinear(), ParabolaRectangle(),
        ParabolaRectangleN(), Sargin(), Popovics(), UserDefined(),
        UserDefinedOneSided(),
    )
}


def off(c, e, points, gap=1e-5, rel=5e-5):
    """e keeps clear of the given strains (kinks, snapping bands)."""
    for q in points:
        g = gap + rel * m.ab(q)
        c.assume(m.OR(e - q > g, q - e > g))


def arr(c, vals):
    return np.array(vals, dtype=object if c.symbolic else float)
