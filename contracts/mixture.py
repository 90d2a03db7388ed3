"""Generalised mixture reach surface (C14)."""
from pyvc_dsl import *
import numpy as np
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import GeneralizedMixtureReachSurface
from contracts.pairwise import LinCurve, CURVES, gen_curves, gen_imps, gen_p, reach_of


def surface(curves, c, a):
    s = GeneralizedMixtureReachSurface(curves, [ReachPoint([1 for k in curves], [1])], c)
    s.a = a
    return s


def gen_c(g):
    return g.rng.choice([1, 2, 3, 4])


def simplex(g, p, c):
    rows = []
    for _ in range(p):
        v = [g.rng.choice([0.0, g.rng.random(), g.rng.random()]) for _ in range(c)]
        if sum(v) == 0:
            v[g.rng.randrange(c)] = 1.0
        rows.append([x / sum(v) for x in v])
    return np.array(rows)


def gen_weights(g):
    return simplex(g, len(g.args["curves"]), g.args["c"]).flatten()


def gen_any(g):
    return np.array([g.rng.uniform(-1, 2) for _ in range(len(g.args["curves"]) * g.args["c"])])


T = dict(curves=CURVES, c=Nat, imps=List(Real), a=Array(1))


def prediction(curves, c, imps, a):
    p = len(curves)
    N = 2 * max([k._max_reach for k in curves])
    return N * total(0, c, lambda j: 1 - product(p, lambda i: 1 - a[j + i * c] * reach_of(curves[i], imps[i]) / N))


@lemma(props=["C14"], types=T, gen=dict(curves=gen_curves, c=gen_c, imps=gen_imps, a=gen_any))
def mixture_formula(curves, c, imps, a):
    p = len(curves)
    assume(p >= 1 and c >= 1 and len(imps) == p and len(a) == p * c)
    assume(forall(0, p, lambda i: curves[i]._max_reach > 0))
    s = surface(curves, c, a)
    pt = s.by_impressions(imps)
    N = 2 * max([k._max_reach for k in curves])
    check("universe of the mixture is twice the largest maximum reach", eq(s._N, N))
    check("N times the sum over clusters of one minus the product", close(pt.reach(1), prediction(curves, c, imps, a)))
    check("impressions of the point", eq(list(pt.impressions), list(imps)))


@lemma(props=["C14"], types=dict(curves=CURVES, spends=List(Real), c=Nat, a=Array(1)),
       gen=dict(curves=gen_curves, spends=gen_imps, c=gen_c, a=gen_weights))
def mixture_by_spend(curves, spends, c, a):
    p = len(curves)
    assume(p >= 1 and c >= 1 and len(spends) == p and len(a) == p * c)
    assume(forall(0, p, lambda i: curves[i]._max_reach > 0))
    s = surface(curves, c, a)
    check("prediction by spend is prediction at the impressions bought",
          close(s.by_spend(spends).reach(1), s.by_impressions([x * 2 for x in spends]).reach(1)))


def gen_shares(g):
    return [g.rng.choice([0.0, 1.0, g.rng.random(), g.rng.random() * 0.5]) for _ in range(g.args["p"])]


@lemma(props=["C14"], types=dict(p=Nat, x=List(Real), k=Nat), concrete=False)
def cluster_bounds(p, x, k):
    """one cluster of the formula: 1 - prod(1 - x_i) lies between every x_k and their sum"""
    assume(len(x) == p and k < p)
    assume(forall(0, p, lambda i: 0 <= x[i] and x[i] <= 1))
    check_induct("miss probability of a prefix", 0, p + 1, lambda n:
                 0 <= product(n, lambda i: 1 - x[i]) and product(n, lambda i: 1 - x[i]) <= 1)
    check_induct("hit probability at most the sum", 0, p + 1, lambda n:
                 le(1 - product(n, lambda i: 1 - x[i]), total(0, n, lambda i: x[i])))
    before = named(product(k, lambda i: 1 - x[i]))
    check("miss probability before k", 0 <= before and before <= 1)
    check("miss probability including k", eq(product(k + 1, lambda i: 1 - x[i]), before * (1 - x[k])))
    check("miss probability up to and including k", le(product(k + 1, lambda i: 1 - x[i]), 1 - x[k]))
    check_induct("hit probability at least that of publisher k", k + 1, p + 1, lambda n:
                 le(product(n, lambda i: 1 - x[i]), 1 - x[k]))
    check("one cluster", le(x[k], 1 - product(p, lambda i: 1 - x[i])) and le(1 - product(p, lambda i: 1 - x[i]), total(0, p, lambda i: x[i])))


@lemma(props=["C14"], types=dict(p=Nat, x=List(Real), k=Nat), concrete=False)
def cluster_single(p, x, k):
    """one cluster of the formula with a single active publisher"""
    assume(len(x) == p and k < p)
    assume(forall(0, p, lambda i: i == k or x[i] == 0))
    check_induct("only one factor", 0, p + 1, lambda n: product(n, lambda i: 1 - x[i]) == (1 - x[k] if n > k else 1))
    check("one cluster", eq(1 - product(p, lambda i: 1 - x[i]), x[k]))


@lemma(props=["C14"], types=dict(c=Nat, a=List(Real), s=Real), concrete=False)
def cluster_shares(c, a, s):
    """a publisher's shares of the clusters add up to its share"""
    assume(c >= 1 and len(a) == c)
    t = total(0, c, lambda j: a[j])
    assume(eq(t, 1))
    check_induct("the share moves out of the sum", 0, c + 1, lambda n: eq(total(0, n, lambda j: a[j] * s), s * total(0, n, lambda j: a[j])))
    check("adds up to the share", eq(total(0, c, lambda j: a[j] * s), s))


@lemma(props=["C14"], types=dict(p=Nat, c=Nat, x=Array(2)), concrete=False)
def sums_exchange(p, c, x):
    assume(x.shape[0] == p and x.shape[1] == c)
    pre = named(np.array([[total(0, n, lambda i: x[i, j]) for j in range(c)] for n in range(p + 1)]))
    rows = named([total(0, c, lambda j: x[i, j]) for i in range(p)])
    check("empty prefix", forall(0, c, lambda j: pre[0, j] == 0))
    check("one more publisher", forall(0, p, lambda n: forall(0, c, lambda j: eq(pre[n + 1, j], pre[n, j] + x[n, j]))))
    check("next prefix sum", forall(0, p, lambda n: eq(total(0, c, lambda j: pre[n + 1, j]), total(0, c, lambda j: pre[n, j]) + total(0, c, lambda j: x[n, j]))))
    check("next prefix sum by rows", forall(0, p, lambda n: eq(total(0, c, lambda j: pre[n + 1, j]), total(0, c, lambda j: pre[n, j]) + rows[n])))
    check_induct("sum over clusters and publishers can be exchanged", 0, p + 1, lambda n:
                 eq(total(0, c, lambda j: pre[n, j]), total(0, n, lambda i: rows[i])))
    check("exchanged", eq(total(0, c, lambda j: pre[p, j]), total(0, p, lambda i: rows[i])))


@lemma(props=["C14"], types=dict(p=Nat, c=Nat, N=Real, r=List(Real), share=List(Real), hit=List(Real), xk=List(Real), col=List(Real), k=Nat), concrete=False)
def mixture_bounds(p, c, N, r, share, hit, xk, col, k):
    """the prediction lies between every single reach and their sum (hypotheses: the four lemmas above)"""
    assume(p >= 1 and c >= 1 and N > 0 and k < p and len(r) == p and len(share) == p and len(hit) == c and len(xk) == c and len(col) == c)
    assume(forall(0, p, lambda i: r[i] == share[i] * N))
    assume(forall(0, c, lambda j: xk[j] <= hit[j] and hit[j] <= col[j]))      # cluster_bounds
    assume(total(0, c, lambda j: xk[j]) == share[k])                          # cluster_shares
    assume(total(0, c, lambda j: col[j]) == total(0, p, lambda i: share[i]))  # sums_exchange, cluster_shares
    h = total(0, c, lambda j: hit[j])
    check("shares", share[k] <= h and h <= total(0, p, lambda i: share[i]))
    check_induct("reaches add up", 0, p + 1, lambda n: total(0, n, lambda i: r[i]) == N * total(0, n, lambda i: share[i]))
    check("at least each single reach", r[k] <= N * h)
    check("at most the sum of the single reaches", N * h <= total(0, p, lambda i: r[i]))


GW = dict(curves=gen_curves, c=gen_c, imps=gen_imps, a=gen_weights)


@lemma(props=["C14"], types=T, gen=GW, symbolic=False)
def mixture_prediction_bounds(curves, c, imps, a):
    s = surface(curves, c, a)
    r = s.by_impressions(imps).reach(1)
    rv = [reach_of(k, n) for k, n in zip(curves, imps)]
    check("at most the sum of the single reaches", le(r, sum(rv)))
    check("at least the largest single reach", le(max(rv), r))
    for k in range(len(curves)):
        v = [n if i == k else 0 for i, n in enumerate(imps)]
        check("one active publisher: its own reach", close(s.by_impressions(v).reach(1), rv[k]))


def gen_pts(g):
    cs = g.args["curves"]
    c, a = g.args["c"], g.args["a"]
    pts = []
    for _ in range(g.rng.randint(1, 6)):
        n = [g.rng.randint(1, 200) for _ in cs]
        if g.rng.random() < 0.3:
            n[g.rng.randrange(len(cs))] = 0
        if not any(n):
            n[0] = 5
        u = float(prediction(cs, c, n, a)) * g.rng.choice([1.0, 1.0, g.rng.uniform(0.8, 1.2)])
        pts.append((n, u))
    return pts


@lemma(props=["C14"], types=dict(curves=CURVES, c=Nat, a=Array(1), pts=List(Real)), symbolic=False,
       gen=dict(curves=gen_curves, c=gen_c, a=gen_weights, pts=gen_pts))
def mixture_fit(curves, c, a, pts):
    p = len(curves)
    s = GeneralizedMixtureReachSurface(curves, [ReachPoint(n, [u]) for n, u in pts], c)
    s._define_criteria(max_num_init=2, max_num_rounds=5)
    s._fit_multi_init_a()
    b = np.array(s.a).reshape(p, c)
    check("weights not negative", bool((b >= -1e-5).all()))
    check("weights of each publisher sum to one", bool((np.abs(b.sum(axis=1) - 1) <= 1e-5).all()))
    r = s.by_impressions(pts[0][0]).reach(1)
    rv = [reach_of(k, n) for k, n in zip(curves, pts[0][0])]
    check("prediction of the fit within bounds", max(rv) - 1e-3 * (1 + sum(rv)) <= r <= sum(rv) + 1e-3 * (1 + sum(rv)))
