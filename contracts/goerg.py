"""Goerg one-point curve (C08)."""
from pyvc_dsl import *
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel


def gen_imp(g):
    return g.rng.choice([g.rng.randint(1, 50), g.rng.randint(1, 10 ** 6), g.real(0.001, 100)])


def gen_reach(g):
    i = g.args["i0"]
    return g.rng.choice([g.rng.uniform(0, i), i * 0.999999, i * 0.5, 0, int(i) // 2, i, i + 1])


G = dict(i0=gen_imp, r0=gen_reach, s0=lambda g: g.rng.choice([1.0, 0.5, 100.0, g.real(0.01, 1000)]),
         x=lambda g: g.rng.choice([0, 1, g.args["i0"], g.rng.randint(0, 10 ** 6), g.real(0, 1000)]),
         y=lambda g: g.rng.choice([0, 1, g.rng.randint(0, 10 ** 6), g.real(0, 1000)]),
         mf=lambda g: g.rng.randint(1, 12), k=lambda g: g.rng.randint(1, 12))


@lemma(props=["C08"], types=dict(i0=Real, r0=Real, s0=Real), gen=G)
def interpolates(i0, r0, s0):
    assume(i0 >= 0.001 and 0 < r0 and r0 < i0 and s0 > 0)
    m = GoergModel([ReachPoint([i0], [r0], [s0])])
    check("training point", close(m.by_impressions([i0]).reach(1), r0))
    check("maximum reach exceeds the training reach", lt(r0, m.max_reach))
    p = m.by_spend([s0])
    check("training point by spend", close(p.reach(1), r0))
    check("impressions for the training spend", close(m.impressions_for_spend(s0), i0))


@lemma(props=["C08"], types=dict(i0=Real, r0=Real, s0=Real, x=Real, y=Real), gen=G)
def increasing_and_bounded(i0, r0, s0, x, y):
    assume(i0 >= 0.001 and 0 < r0 and r0 < i0 and 0 <= x and 0 <= y)
    m = GoergModel([ReachPoint([i0], [r0])])
    a = m.by_impressions([x]).reach(1)
    b = m.by_impressions([y]).reach(1)
    check("not negative", a >= 0)
    check("below the maximum reach", le(a, m.max_reach))
    check("at most the impressions", le(a, x))
    check("increasing", implies(x < y, lambda: lt(a, b)))
    check("no impressions, no reach", implies(x == 0, lambda: a == 0))


@lemma(props=["C08"], types=dict(i0=Real, r0=Real, x=Real, mf=Int, k=Int), gen=G)
def kplus_reaches(i0, r0, x, mf, k):
    assume(i0 >= 0.001 and 0 < r0 and r0 < i0 and 0 <= x)
    assume(1 <= mf and 1 <= k and k < mf)
    m = GoergModel([ReachPoint([i0], [r0])])
    p = m.by_impressions([x], mf)
    check("requested number of k+ reaches", p.max_frequency == mf)
    check("impressions of the point", p.impressions[0] == x)
    check("each k+ reach is the previous one times the reach probability",
          close(p.reach(k + 1) * m.max_reach, p.reach(k) * p.reach(1)))
    check("k+ reaches do not increase", le(p.reach(k + 1), p.reach(k)))
    check("k+ reaches are not negative", p.reach(k + 1) >= 0)
    check("no spend without a cost", p.spends is None)


@lemma(props=["C08"], types=dict(i0=Real, r0=Real, s0=Real, x=Real, mf=Int, k=Int), gen=G)
def by_spend(i0, r0, s0, x, mf, k):
    assume(i0 >= 0.001 and 0 < r0 and r0 < i0 and s0 > 0 and x >= 0)
    assume(1 <= mf and 1 <= k and k <= mf)
    m = GoergModel([ReachPoint([i0], [r0], [s0])])
    p = m.by_spend([x], mf)
    n = x / (s0 / i0)
    check("impressions bought", close(p.impressions[0], n) and close(m.impressions_for_spend(x), n))
    check("spend of the point", close(p.spends[0], x))
    check("prediction at the impressions bought", close(p.reach(k), m.by_impressions([n], mf).reach(k)))
    check("number of k+ reaches", p.max_frequency == mf)


@lemma(props=["C08"], types=dict(i0=Real, r0=Real, s0=Real, x=Real), gen=G)
def rejections(i0, r0, s0, x):
    assume(i0 >= 0 and r0 >= 0 and x >= 0)
    if i0 <= r0:
        expect_raises(ValueError, lambda: GoergModel([ReachPoint([i0], [r0])]))
    elif i0 >= 0.001:
        m = GoergModel([ReachPoint([i0], [r0])])
        expect_raises(ValueError, lambda: m.by_spend([x]))
        expect_raises(ValueError, lambda: m.impressions_for_spend(x))
        expect_raises(ValueError, lambda: m.by_impressions([x, x]))
        p = GoergModel([ReachPoint([i0], [r0], [i0])])
        expect_raises(ValueError, lambda: p.by_spend([x, x]))
    expect_raises(ValueError, lambda: GoergModel([ReachPoint([0], [r0])]))
    expect_raises(ValueError, lambda: GoergModel([ReachPoint([i0], [r0]), ReachPoint([i0], [r0])]))
    expect_raises(ValueError, lambda: GoergModel([ReachPoint([i0, x], [r0])]))
