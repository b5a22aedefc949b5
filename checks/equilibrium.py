"""C11: searches for axial equilibrium, for arbitrary section responses."""

from symx.harness import harness

from .marin_section import law_parabola, law_plastic, make, RECT

OUT = (
    'the response of the section (arbitrary: every integration returns a '
    'fresh symbolic axial force, the same for the same strain); floating '
    'point rounding; searches that need more integrations than stated, '
    'except those that never converge'
)
TOL = 1e-2


class Adversary:
    """Integrator whose axial force is n + d_k, d_k arbitrary."""

    def __init__(self, c, n, limit=None, law=None):
        self.c, self.n, self.limit, self.law = c, n, limit, law
        self.seen = []

    def unbalance(self, strain):
        for s, d in self.seen:
            if all(bool(a == b) for a, b in zip(s, strain)):
                return d
        k = len(self.seen)
        if self.limit is not None and k >= self.limit:
            self.c.cut(f'more than {self.limit} integrations')
        if self.law is not None:
            d = self.law(k)
        else:
            d = self.c.real(f'd{k}', -1e7, 1e7)
        self.seen.append((tuple(strain), d))
        return d

    def integrate_strain_response_on_geometry(
        self, geo, strain, integrate='stress', **kw
    ):
        d = self.unbalance(strain)
        return self.n + d, 0.0, 0.0, None


def section(c, n, limit=None, law=None):
    from structuralcodes.sections import GenericSection

    con, steel = law_parabola()[0], law_plastic()[0]
    g = make(c, [((RECT, ()), con)], [
        (-100, -200, 20, steel), (100, -200, 20, steel),
        (-100, 200, 20, steel), (100, 200, 20, steel),
    ])
    sec = GenericSection(g)
    adv = Adversary(c, n, limit, law)
    sec.section_calculator.integrator = adv
    return g, sec.section_calculator, adv


def verdict(c, adv, strain):
    d = adv.unbalance(strain)
    c.le('unbalance at the returned strain', d, TOL, rtol=1e-9, atol=1e-9)
    c.le('negative unbalance at the returned strain', -d, TOL, rtol=1e-9,
         atol=1e-9)


@harness('C11', 'fixed curvature', params=[
    dict(sign=s, first=f) for s in (1, -1)
    for f in ('first step', 'later step')
], bounds='any axial load, curvature and starting strain; up to 9 '
    'integrations, each with any unbalance', outside=OUT, budget=100)
def fixed_curvature(c, sign, first):
    n = c.real('n', -1e7, 1e7)
    chi = c.real('chi', -1e-3, 1e-3)
    eps = c.real('eps', -0.02, 0.02)

    def law(k):
        d = c.real(f'd{k}', -1e7, 1e7)
        if k == 0:
            c.assume(d * sign >= 0)
        if k == 1:
            c.assume(d * sign < 0 if first == 'first step' else d * sign >= 0)
        return d

    g, calc, adv = section(c, n, 9 if first == 'first step' else 7, law)
    got = calc.find_equilibrium_fixed_curvature(g, n, chi, eps)
    c.eq('the curvature is kept', got[1], chi, atol=1e-15)
    c.check('no curvature about the other axis', got[2] == 0)
    verdict(c, adv, got)


PATTERNS = {
    # always the same side, coming closer, leaving, or in turn
    'no other side, closer': lambda c, k, s: s * c.real(
        f'd{k}', 1 + 100 / (k + 2), 1 + 100 / (k + 1.5)),
    'no other side, away': lambda c, k, s: s * (
        c.real('d0', 1, 2) if k == 0 else c.real(f'd{k}', 3, 1e6)),
    'no other side, jumping': lambda c, k, s: s * (
        c.real('d0', 5, 6) if k == 0
        else c.real(f'd{k}', 7, 9) if k % 3 else c.real(f'd{k}', 1, 2)),
    # a jump across equilibrium
    'jump, far end': lambda c, k, s: s * (
        c.real('d0', 1, 1e6) if k == 0 else -c.real(f'd{k}', 1, 1e6)),
    'jump, near end': lambda c, k, s: s * (
        -c.real('d1', 1, 1e6) if k == 1 else c.real(f'd{k}', 1, 1e6)),
    'jump, in turn': lambda c, k, s: s * (
        c.real(f'd{k}', 1, 1e6) if k % 2 == 0 else -c.real(f'd{k}', 1, 1e6)),
}


@harness('C11', 'fixed curvature, never in equilibrium', params=[
    dict(pattern=p) for p in PATTERNS
], bounds='searches in which no integration comes closer than 1 to '
    'equilibrium, in 6 patterns of sides; all iterations', outside=OUT,
    budget=100)
def curvature_never(c, pattern):
    n = c.real('n', -1e7, 1e7)
    chi = c.real('chi', -1e-3, 1e-3)
    eps = c.real('eps', -0.02, 0.02)
    s = c.choice('side', [1, -1])
    g, calc, adv = section(
        c, n, None, lambda k: PATTERNS[pattern](c, k, s))
    ok = c.raises(calc.find_equilibrium_fixed_curvature, g, n, chi, eps)
    c.check('a search without result is an error', ok)


def pivot_checks(c, g, calc, adv, yielding, got):
    y_n, y_p, bal = calc.get_balanced_failure_strain(g, yielding)
    ep, en = bal[0] + bal[1] * y_p, bal[0] + bal[1] * y_n
    verdict(c, adv, got)
    d0 = adv.seen[0][1]
    if bool(d0 < 0):
        c.eq('strain kept at the tension side', got[0] + got[1] * y_p, ep,
             atol=1e-12)
    else:
        c.eq('strain kept at the compression side', got[0] + got[1] * y_n,
             en, atol=1e-12)
    c.le('curvature not beyond balanced failure', bal[1], got[1], atol=1e-15)
    c.le('curvature of the same sign', got[1], 0)
    c.check('no curvature about the other axis', got[2] == 0)


@harness('C11', 'fixed pivot', params=[
    dict(sign=s, yielding=y, other=o) for s in (1, -1)
    for y in (False, True) for o in (1, -1)
], bounds='any axial load; balanced failure of a reinforced concrete '
    'rectangle; up to 9 integrations, each with any unbalance', outside=OUT,
    budget=100)
def fixed_pivot(c, sign, yielding, other):
    n = c.real('n', -1e7, 1e7)

    def law(k):
        d = c.real(f'd{k}', -1e7, 1e7)
        if k == 0:
            c.assume(d * sign >= 0)
        if k == 1:
            c.assume(d * sign * other >= 0)
        return d

    g, calc, adv = section(c, n, 9, law)
    try:
        got = calc.find_equilibrium_fixed_pivot(g, n, yielding)
    except ValueError:
        # both ends on the same side
        ds = [d for _s, d in adv.seen]
        c.check('error only without change of sign',
                len(ds) > 1 and ds[0] * ds[1] > 0)
        return
    pivot_checks(c, g, calc, adv, yielding, got)


@harness('C11', 'fixed pivot, never in equilibrium', params=[
    dict(pattern=p) for p in PATTERNS
], bounds='searches in which no integration comes closer than 1 to '
    'equilibrium, in 6 patterns of sides; all iterations', outside=OUT,
    budget=100)
def pivot_never(c, pattern):
    n = c.real('n', -1e7, 1e7)
    s = c.choice('side', [1, -1])
    y = c.choice('yielding', [False, True])
    g, calc, adv = section(
        c, n, None, lambda k: PATTERNS[pattern](c, k, s))
    ok = c.raises(calc.find_equilibrium_fixed_pivot, g, n, y)
    c.check('a search without result is an error', ok)


@harness('C11', 'converging searches', params=[
    dict(search=x, turn=t) for x in ('curvature', 'pivot') for t in (1, 2, 3)
], bounds='responses that come closer by a factor 2 in every integration '
    'and change sides every 1, 2 or 3 integrations, from any unbalance of '
    '1e3 to 1e4; as many integrations as needed', outside=OUT, budget=100)
def converging(c, search, turn):
    n = c.real('n', -1e7, 1e7)
    s = c.choice('side', [1, -1])
    d = c.real('d', 1e3, 1e4)

    def law(k):
        if k < 2:
            return s * d * (1 if k == 0 else -1)
        side = 1 if (k // turn) % 2 else -1
        return s * side * d / 2**k

    g, calc, adv = section(c, n, None, law)
    if search == 'curvature':
        chi = c.real('chi', -1e-3, 1e-3)
        eps = c.real('eps', -0.02, 0.02)
        got = calc.find_equilibrium_fixed_curvature(g, n, chi, eps)
        c.eq('the curvature is kept', got[1], chi, atol=1e-15)
        verdict(c, adv, got)
    else:
        y = c.choice('yielding', [False, True])
        pivot_checks(c, g, calc, adv, y,
                     calc.find_equilibrium_fixed_pivot(g, n, y))
