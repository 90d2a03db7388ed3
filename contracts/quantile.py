"""Quantile inversion of reach curves (C09)."""
from pyvc_dsl import *
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve


class FnCurve(ReachCurve):
    """a reach curve given by an arbitrary function; by_spend is a different arbitrary function"""

    def __init__(self, f, g, m):
        super().__init__([ReachPoint([1], [1])], m)
        self._f = f
        self._g = g

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(impressions, [self._f(impressions[0])])

    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([1], [self._g(spends[0])])


def gen_step(g):
    """monotone step / smooth / non-monotone functions of very different scales"""
    r = g.rng
    k = r.choice([0, 1, 2, 3, 4])
    s = r.choice([1, 2, 3, 10, 1000, 2 ** 20, 2 ** 45, 2 ** 59, 2 ** 60, 2 ** 61, 2 ** 62])
    c = r.randint(0, 5)
    if k == 0:
        return lambda x: 100.0 * x / (x + s)
    if k == 1:
        return lambda x: min(100.0, 100.0 * (x // s) / 4)
    if k == 2:
        return lambda x: 100.0 if x > s - c else 0.0
    if k == 3:
        return lambda x: 0.0 if x == 0 else 100.0 * ((x * 7919 + c) % 101) / 101
    return lambda x: 100.0 if x >= s else (x // 3) * 10.0 if x < 12 else 40.0


QUANT = dict(f=gen_step, g=gen_step, m=lambda g: g.rng.choice([100.0, 100.0, 80.0, 60.0, 0.0]),
             q=lambda g: g.rng.choice([0.01, 0.25, 0.5, 0.75, 0.9, 0.999, g.rng.random(), 0.0, 1.0, -0.5, 1.5]))
FT = dict(f=Fun(Int, Real), g=Fun(Int, Real), m=Real, q=Real)


@lemma(props=["C09"], types=FT, gen=QUANT)
def impressions_quantile(f, g, m, q):
    assume(0 < q and q < 1)
    assume(f(0) <= q * m)
    c = FnCurve(f, g, m)
    try:
        n = c.impressions_at_reach_quantile(q)
    except OverflowError:
        check("overflow only if 2^60 impressions do not suffice", f(2 ** 60) <= q * m)
        return
    check("n is not negative", n >= 0)
    check("reach at n does not exceed the target", f(n) <= q * m)
    check("reach at n + 1 exceeds the target", f(n + 1) > q * m)


@lemma(props=["C09"], types=FT, gen=QUANT)
def spend_quantile(f, g, m, q):
    assume(0 < q and q < 1)
    assume(g(0) <= q * m)
    c = FnCurve(f, g, m)
    try:
        n = c.spend_at_reach_quantile(q)
    except OverflowError:
        check("overflow only if 2^60 spend units do not suffice", g(2 ** 60) <= q * m)
        return
    check("n is not negative", n >= 0)
    check("reach at n does not exceed the target", g(n) <= q * m)
    check("reach at n + 1 exceeds the target", g(n + 1) > q * m)


@lemma(props=["C09"], types=FT, gen=QUANT)
def quantile_out_of_range(f, g, m, q):
    assume(q <= 0 or q >= 1)
    c = FnCurve(f, g, m)
    expect_raises(ValueError, lambda: c.impressions_at_reach_quantile(q))
    expect_raises(ValueError, lambda: c.spend_at_reach_quantile(q))


@lemma(props=["C09"], types=FT, symbolic=False, gen=dict(QUANT, f=lambda g: (lambda x, s=g.rng.choice([1.0, 50.0, 99.0]): min(x, s))))
def never_a_wrong_answer(f, g, m, q):
    """a target that is never exceeded is reported as an overflow"""
    assume(0 < q and q < 1)
    c = FnCurve(f, g, m)
    if all(f(x) <= q * m for x in range(0, 200)):
        expect_raises(OverflowError, lambda: c.impressions_at_reach_quantile(q))
