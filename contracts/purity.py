"""Queries are pure, stored inputs are isolated from callers (C20)."""
from pyvc_dsl import *
import copy
import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

LOG = List(Tuple(Int, Real))


@lemma(props=["C20"], types=dict(log=LOG, s=Real, n=Int, m=Real, u=Int, x=Real), concrete=False)
def publisher_is_isolated_and_pure(log, s, n, m, u, x):
    assume(len(log) >= 1 and n >= 0)
    p = PublisherData(log, "p")
    a, b, c, r = p.impressions_by_spend(s), p.spend_by_impressions(n), p.max_spend, p.max_reach
    log.append((u, x))
    log[0] = (u, m)
    p.user_counts_by_impressions(n)
    p.user_counts_by_spend(m)
    p.impressions_by_spend(m)
    check("same answers after other queries and after the caller changed its list", p.impressions_by_spend(s) == a and p.spend_by_impressions(n) == b and p.max_spend == c and p.max_reach == r)
    check("same size", p.max_impressions == len(log) - 1)


@lemma(props=["C20"], types=dict(log=LOG, i=Nat, n=Int, s=Real), concrete=False)
def publisher_queries_leave_the_log(log, i, n, s):
    assume(i < len(log) and n >= 0)
    before = log[i]
    k = len(log)
    p = PublisherData(log, "p")
    check("constructor leaves its argument", len(log) == k and log[i] == before)
    own = p._data[i]
    p.user_counts_by_impressions(n)
    p.user_counts_by_spend(s)
    p.impressions_by_spend(s)
    p.spend_by_impressions(n)
    check("queries leave the stored events", len(p._data) == k and p._data[i] == own)


@lemma(props=["C20"], types=dict(imps=List(Int), kp=List(Real), sp=List(Real), k=Int, x=Real, i=Nat), concrete=False)
def reach_point_is_isolated(imps, kp, sp, k, x, i):
    assume(len(imps) >= 1 and len(sp) == len(imps) and len(kp) >= 2 and 1 <= k and k < len(kp) and i < len(imps))
    p = ReachPoint(imps, kp, sp, 100)
    a, b, c, d = p.reach(k), p.frequency(k), p.impressions[i], p.spends[i]
    kp[k - 1] = x
    kp[k] = x
    kp.append(x)
    imps[i] = imps[i] + 1
    sp[i] = x
    p.zero_included_histogram
    p.frequencies_with_kplus_bucket
    check("same answers", p.reach(k) == a and p.frequency(k) == b and p.impressions[i] == c and p.spends[i] == d and p.max_frequency == len(kp) - 1)


@lemma(props=["C20"], types=dict(i0=Real, r0=Real, s0=Real, x=Real, y=Real, f=Int, k=Int), concrete=False)
def goerg_queries_are_pure(i0, r0, s0, x, y, f, k):
    assume(i0 >= 1 and r0 > 0 and r0 < i0 and s0 > 0 and x >= 0 and y >= 0 and 1 <= k and k <= f)
    imps, kp, sp = [i0], [r0], [s0]
    m = GoergModel([ReachPoint(imps, kp, sp)])
    q = [x]
    a = m.by_impressions(q, f).reach(k)
    imps[0] = x
    kp[0] = y
    sp[0] = x
    t = [y]
    m.by_spend(t, f)
    m.by_impressions([y], 1)
    check("arguments unchanged", len(q) == 1 and q[0] == x and len(t) == 1 and t[0] == y)
    check("same answer again", m.by_impressions(q, f).reach(k) == a)


class AnyCurve(object):
    """a reach curve known only by its values"""

    def __init__(self, f, m):
        self.f = f
        self.max_reach = m

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(impressions, [self.f(impressions[0])])


# ------------------------------------------------------------------ run time
def show(v):
    """a value that can be compared later"""
    if isinstance(v, ReachPoint):
        return ("pt", tuple(v._impressions), tuple(map(float, v._kplus_reaches)), tuple(map(float, v._frequencies)), None if v._spends is None else tuple(v._spends), v._universe_size)
    if isinstance(v, PublisherData):
        return ("pub", v.name, tuple(v._data))
    if isinstance(v, DataSet):
        return ("set", v.name, tuple(show(p) for p in v._data), v.universe_size, v.maximum_reach)
    if isinstance(v, np.ndarray):
        return ("array", tuple(v.ravel().tolist()), v.shape)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(show(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((k, show(x)) for k, x in v.items()))
    return v


def pure(what, ops, rng, rounds=12):
    """ops: list of (function, arguments); any query repeated after any others gives the same result and keeps its arguments"""
    first = {}
    for _ in range(rounds):
        i = rng.randrange(len(ops))
        f, args = ops[i]
        keep = show(args)
        try:
            r = show(f(*args))
        except (ValueError, OverflowError, IndexError) as x:
            r = ("raises", type(x).__name__)
        check(what + ": arguments unchanged", show(args) == keep)
        if i in first:
            check(what + ": same answer again", first[i] == r)
        first.setdefault(i, r)


def gen_log(g):
    return [(g.rng.randint(0, 4), float(g.rng.randint(0, 6)) / 2) for _ in range(g.rng.randint(1, 8))]


class Rng(object):
    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return "Rng"


def gen_seed(g):
    return g.rng.randrange(1 << 30)


@lemma(props=["C20"], types=dict(logs=List(LOG), seed=Int), symbolic=False, pure=False, gen=dict(logs=lambda g: [gen_log(g) for _ in range(g.rng.randint(1, 4))], seed=gen_seed))
def data_queries(logs, seed):
    import random
    rng = random.Random(seed)
    given = copy.deepcopy(logs)
    pubs = [PublisherData(l, "p%d" % i) for i, l in enumerate(logs)]
    check("constructor leaves the logs", logs == given)
    d = DataSet(pubs, "d")
    kept = show(d)
    ops = []
    for _ in range(4):
        n, s, k = [rng.randint(0, 9) for _ in logs], [rng.randint(0, 8) / 2.0 for _ in logs], rng.randint(1, 6)
        ops += [(d.reach_by_impressions, [n, k]), (d.reach_by_spend, [s, k]), (d.spend_by_impressions, [n]), (d.impressions_by_spend, [s])]
        p = pubs[0]
        ops += [(p.user_counts_by_impressions, [n[0]]), (p.user_counts_by_spend, [s[0]]), (p.spend_by_impressions, [n[0]]), (p.impressions_by_spend, [s[0]])]
    pure("data set", ops, rng, 30)
    check("data set as it was", show(d) == kept)
    want = {i: show(f(*a)) for i, (f, a) in enumerate(ops)}
    for l in logs:
        l.reverse()
        l.append((99, 0.25))
        l[0] = (77, 0.0)
    check("publishers keep their events", {i: show(f(*a)) for i, (f, a) in enumerate(ops)} == want)
    keepers = {i: v for i, v in want.items() if ops[i][0].__self__ is d}
    for p in pubs:
        p._data.append((55, 0.0))
        p._spends.insert(0, 0.0)
        p.name = "renamed"
    pubs.append(PublisherData([(1, 1.0)], "more"))
    del pubs[0]
    check("the data set keeps its publishers", show(d) == kept and {i: show(ops[i][0](*ops[i][1])) for i in keepers} == keepers)


@lemma(props=["C20"], types=dict(kp=List(Real), n=Int, seed=Int), symbolic=False, gen=dict(kp=lambda g: sorted([g.rng.randint(0, 50) for _ in range(g.rng.randint(1, 7))], reverse=True), n=lambda g: g.rng.randint(1, 3), seed=gen_seed))
def reach_point_queries(kp, n, seed):
    import random
    rng = random.Random(seed)
    imps, sp = [10 + i for i in range(n)], [1.5 + i for i in range(n)]
    for kind in (list, np.array):
        a, b, c = kind(imps), kind(kp), list(sp)
        p = ReachPoint(a, b, c, 100)
        kept = show(p)
        ops = [(p.reach, [k]) for k in range(0, len(kp) + 2)] + [(p.frequency, [k]) for k in range(0, len(kp) + 2)]
        ops += [(lambda: p.zero_included_histogram, []), (lambda: p.frequencies_with_kplus_bucket, []), (lambda: p.frequencies, []), (lambda: p.impressions, []), (lambda: p.spends, []), (lambda: p.max_frequency, [])]
        pure("reach point", ops, rng, 40)
        a[0], b[0], c[0] = 999, 999, 999.0
        b[-1] = 888
        check("reach point keeps its values", show(p) == kept)
        h = list(kp)
        ReachPoint.frequencies_to_kplus_reaches(h)
        check("conversion leaves its argument", h == list(kp))
        u = {1: 2, 5: 1, 7: 3}
        ReachPoint.user_counts_to_kplus_reaches(u, 2)
        ReachPoint.user_counts_to_frequencies(u, 2)
        check("user counts left alone", u == {1: 2, 5: 1, 7: 3})


def gamma(max_reach, cpi):
    from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
    m = GammaPoissonModel([ReachPoint([200], [120, 50, 20], [200 * cpi])])
    m._max_reach, m._alpha, m._beta = max_reach, 2.0, 1.5
    m._max_impressions = m._expected_impressions(max_reach, 2.0, 1.5)
    return m


@lemma(props=["C20"], types=dict(which=Int, seed=Int), symbolic=False, weight=4, gen=dict(which=lambda g: g.rng.randrange(6), seed=gen_seed))
def curve_queries(which, seed):
    import random
    from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import DiracMixtureSinglePublisherModel
    from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
    from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel, KInflatedGammaPoissonDistribution
    rng = random.Random(seed)
    if which == 0:
        imps, kp, sp = [300], [200], [30.0]
        m = GoergModel([ReachPoint(imps, kp, sp)])
    elif which == 1:
        m = gamma(500.0, 0.5)
    elif which == 2:
        d = DataSet([PublisherData([(rng.randint(0, 20), float(j)) for j in range(1, 40)], "a"), PublisherData([(1, 1.0)], "b")], "d")
        m = GroundTruthReachCurveModel(d, 0)
    elif which == 3:
        m = KInflatedGammaPoissonModel([ReachPoint([200], [120, 50, 20], [100.0])], 2)
        m._dist = KInflatedGammaPoissonDistribution(2.0, 1.5, [0.25, 0.125])
        m._max_reach = 500.0
        m._max_impressions = 500.0 * m._dist.expected_value()
        m._fit_computed = True
    elif which == 4:
        m = DiracMixtureSinglePublisherModel([ReachPoint([300], [200, 60, 10], [30.0], 1000)], 5)
        m._fit()
    else:
        m = GoergModel([ReachPoint([300], [200])])
    ops = []
    for _ in range(3):
        x, k = rng.randint(1, 30), rng.randint(1, 5)
        ops += [(m.by_impressions, [[x], k]), (m.by_spend, [[x / 2.0], k]), (m.impressions_for_spend, [x / 2.0])]
    ops += [(lambda: m.max_reach, [])] if which != 4 else []
    pure("curve", ops, rng, 14)


@lemma(props=["C20"], types=dict(which=Int, p=Int, seed=Int), symbolic=False, gen=dict(which=lambda g: g.rng.randrange(3), p=lambda g: g.rng.randint(2, 4), seed=gen_seed))
def surface_queries(which, p, seed):
    import random
    from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import GeneralizedMixtureReachSurface
    from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
    from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import RestrictedPairwiseUnionReachSurface
    rng = random.Random(seed)
    curves = [GoergModel([ReachPoint([300 + 10 * i], [200 - i], [30.0 + i])]) for i in range(p)]
    pts = []
    for i in range(p + 1):
        imps = [0 if j == i else 100 + 7 * j for j in range(p)]
        r = sum(c.by_impressions([x]).reach() for c, x in zip(curves, imps))
        pts.append(ReachPoint(imps, [0.9 * r], [x * 0.1 for x in imps], 2000))
    given = show(pts)
    np.random.seed(seed % 1000)
    if which == 0:
        m = PairwiseUnionReachSurface(curves, pts)
        m._fit()
    elif which == 1:
        m = RestrictedPairwiseUnionReachSurface(curves, pts)
        a = np.array([[0.0 if i == j else 0.5 / p for i in range(p)] for j in range(p)])
        m._a = a.flatten()
    else:
        m = GeneralizedMixtureReachSurface(curves, pts, 2)
        m.a = np.full(2 * p, 0.5)
    check("training points unchanged", show(pts) == given)
    ops = []
    for _ in range(3):
        x = [rng.randint(0, 400) for _ in range(p)]
        ops += [(m.by_impressions, [x, 1]), (m.by_spend, [[v / 10.0 for v in x], 1]), (m.get_reach_vector, [x])]
    pure("surface", ops, rng, 12)
    want = show(m.by_impressions([150] * p, 1))
    for c in curves:
        c._rho = c._beta = c._max_reach = 5.0
    del curves[0]
    check("surface keeps its curves", show(m.by_impressions([150] * p, 1)) == want)
