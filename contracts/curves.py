"""Single-publisher curves: Gamma-Poisson, inflated Gamma-Poisson, Dirac mixture, ground truth (C11)."""
from pyvc_dsl import *
import numpy as np
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel, KInflatedGammaPoissonDistribution
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import DiracMixtureSinglePublisherModel, UnivariateMixedPoissonOptimizer
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel

REL = 1e-7


def curve_ok(at, top, xs, mf, audience, cpi=None):
    """the postcondition of a reach curve at increasing impressions xs"""
    prev = None
    for x in sorted(xs):
        p = at(x, mf)
        kp = [float(p.reach(k)) for k in range(1, p.max_frequency + 1)]
        tol = REL * (1 + audience)
        check("requested number of k+ reaches", p.max_frequency == mf)
        check("finite", all(v == v and abs(v) < 1e18 for v in kp))
        check("not negative", all(v >= -tol for v in kp))
        check("not increasing in k", all(a >= b - tol for a, b in zip(kp, kp[1:])))
        check("not above the audience", kp[0] <= audience + tol)
        check("not decreasing in impressions", prev is None or all(b >= a - tol for a, b in zip(prev, kp)))
        check("impressions of the point", list(p.impressions) == [x])
        check("spend proportional to impressions", (not p.spends) if cpi is None else close(p.spends[0], x * cpi))
        one = at(x, 1)
        check("1+ reach does not depend on the requested frequency", abs(float(one.reach(1)) - kp[0]) <= 10 * tol + (1 if top == "int" else 0))
        prev = kp


def gen_imps(g):
    m = g.args.get("imax", 1000.0)
    return sorted([g.rng.choice([0, 1, g.rng.randint(1, 50), float(m) * g.rng.random(), m * g.rng.uniform(0.9, 1.5), 10 * m]) for _ in range(4)])


def gen_mf(g):
    return g.rng.choice([1, 2, 3, 5, 10, 20])


def gen_cpi(g):
    return g.rng.choice([None, 0.5, 2.0, 0.01])


def point(imps, kp, cpi, universe=None):
    return ReachPoint([imps], kp, [imps * cpi], universe) if cpi else ReachPoint([imps], kp, None, universe) if universe else ReachPoint([imps], kp)


def gamma_poisson(alpha, beta, n, cpi):
    m = GammaPoissonModel([point(100, [50, 20, 10], cpi)], n)
    m._alpha, m._beta, m._max_reach = alpha, beta, n
    m._max_impressions = m._expected_impressions(n, alpha, beta)
    return m


def gen_alpha(g):
    return g.rng.choice([1.0, 0.5, 0.05, 5.0, g.rng.uniform(0.01, 10), 50.0])


def gen_beta(g):
    return g.rng.choice([1.0, 0.2, 0.01, 3.0, g.rng.uniform(0.01, 8)])


def gen_n(g):
    return g.rng.choice([100, 50.5, 1000, 10 ** 6, 7])


@lemma(props=["C11"], types=dict(alpha=Real, beta=Real, n=Real, cpi=Real, mf=Int, xs=List(Real)), symbolic=False,
       gen=dict(alpha=gen_alpha, beta=gen_beta, n=gen_n, cpi=gen_cpi, mf=gen_mf, xs=lambda g: gen_imps_of(g)))
def gamma_poisson_curve(alpha, beta, n, cpi, mf, xs):
    m = gamma_poisson(alpha, beta, n, cpi)
    curve_ok(lambda x, k: m.by_impressions([x], k), "real", xs, mf, n, cpi)
    check("expected impressions of the audience", close(m._max_impressions, n * (1 + alpha * beta)))
    spend_ok(m, xs, mf, cpi)
    # exact law: thinned shifted negative binomial
    x = min(xs[1], m._max_impressions - 1)
    if x >= 0:
        p = x / m._max_impressions
        t = thinned(lambda j: nb(j, alpha, beta), p, 3)
        q = m.by_impressions([x], 3)
        for k in (1, 2, 3):
            check("k+ reach is the audience times the thinned k+ probability", abs(float(q.reach(k)) - n * t[k]) <= 1e-6 * (1 + n))


def gen_imps_of(g):
    g.args["imax"] = g.args["n"] * (1 + g.args["alpha"] * g.args["beta"])
    r = gen_imps(g)
    del g.args["imax"]
    return r


def nb(j, alpha, beta):
    """probability that the (shifted) Gamma-Poisson variable is j >= 1"""
    import math
    p = 1.0 / (1.0 + beta)
    n = j - 1
    return math.exp(math.lgamma(n + alpha) - math.lgamma(alpha) - math.lgamma(n + 1) + alpha * math.log(p) + n * math.log1p(-p))


def thinned(pmf, p, kmax):
    """P(at least k of N impressions kept), each kept with probability p; N <= 1000"""
    import math
    out = {k: 0.0 for k in range(1, kmax + 1)}
    for j in range(1, 1001):
        w = pmf(j)
        if w == 0:
            continue
        below = 0.0
        for k in range(1, kmax + 1):
            b = math.comb(j, k - 1) * p ** (k - 1) * (1 - p) ** (j - k + 1) if k - 1 <= j else 0.0
            below += b
            out[k] += w * max(0.0, 1 - below)
    return out


def spend_ok(m, xs, mf, cpi):
    if cpi is None:
        expect_raises(ValueError, lambda: m.by_spend([1.0], mf))
        expect_raises(ValueError, lambda: m.impressions_for_spend(1.0))
    else:
        s = xs[2] * cpi
        check("impressions bought by a spend", close(m.impressions_for_spend(s), s / cpi))
        a, b = m.by_spend([s], mf), m.by_impressions([s / cpi], mf)
        check("prediction by spend", a.max_frequency == b.max_frequency and all(close(a.reach(k), b.reach(k)) for k in range(1, mf + 1))
              and close(a.spends[0], s) and close(a.impressions[0], s / cpi))
    expect_raises(ValueError, lambda: m.by_impressions([1, 2], mf))
    expect_raises(ValueError, lambda: m.by_spend([1, 2], mf))


# ------------------------------------------------------------------ inflated Gamma-Poisson
def gen_a(g):
    k = g.rng.choice([0, 0, 1, 2, 3, 5])
    v = [g.rng.choice([0.0, g.rng.random()]) for _ in range(k)]
    s = sum(v)
    if s > 0 and g.rng.random() < 0.8:
        f = g.rng.random() / s
        v = [x * f for x in v]
    return v


@lemma(props=["C11"], types=dict(alpha=Real, beta=Real, a=List(Real), p=Real), symbolic=False,
       gen=dict(alpha=gen_alpha, beta=gen_beta, a=gen_a, p=lambda g: g.rng.choice([0.0, 1.0, g.rng.random(), g.rng.random() * 0.1])))
def inflated_distribution(alpha, beta, a, p):
    d = KInflatedGammaPoissonDistribution(alpha, beta, list(a))
    f = np.array([float(x) for x in d._pmf])
    check("probabilities", bool((f >= -1e-9).all()) and abs(f.sum() - 1) < 1e-9 and f[0] == 0)
    s = sum(a)
    head = [x / s for x in a] if s > 1 else list(a)
    check("head masses", all(close(f[j + 1], x) for j, x in enumerate(head)))
    n = len(a)
    body_ = [nb(j, alpha, beta) for j in range(n + 1, len(f) - 1)]
    t = sum(nb(j, alpha, beta) for j in range(1, n + 1))
    if t < 0.999:
        check("tail in proportion to the Gamma-Poisson masses", all(abs(f[n + 1 + j] - (1 - sum(head)) / (1 - t) * x) <= 1e-7 for j, x in enumerate(body_)))
    check("pmf by index", d.pmf(1) == d._pmf[1] and close(d.expected_value(), float((np.arange(len(f)) * f).sum())))
    top = d.kreach(np.arange(0, 12), p)
    tail = [float(d.kplusreach(k, p)) for k in range(0, 12)]
    check("k reaches are probabilities", all(-1e-9 <= x <= 1 + 1e-9 for x in top))
    check("at least zero is certain", abs(tail[0] - 1) < 1e-12)
    for k in range(11):
        check("k+ differs from (k+1)+ by exactly k", abs(tail[k] - tail[k + 1] - float(top[k])) < 1e-8)
    w = thinned(lambda j: max(0.0, f[j]) if j < len(f) else 0.0, p, 3)
    for k in (1, 2, 3):
        check("thinned law", abs(tail[k] - w[k]) < 1e-6)


def kinflated(alpha, beta, a, n, cpi):
    m = KInflatedGammaPoissonModel([point(100, [50, 20, 10], cpi)])
    m._max_reach = n
    m._dist = KInflatedGammaPoissonDistribution(alpha, beta, list(a))
    m._max_impressions = n * m._dist.expected_value()
    m._fit_computed = True
    return m


@lemma(props=["C11"], types=dict(alpha=Real, beta=Real, a=List(Real), n=Real, cpi=Real, mf=Int, xs=List(Real)), symbolic=False,
       gen=dict(alpha=gen_alpha, beta=gen_beta, a=gen_a, n=gen_n, cpi=gen_cpi, mf=gen_mf, xs=lambda g: gen_imps_of(g)))
def inflated_curve(alpha, beta, a, n, cpi, mf, xs):
    m = kinflated(alpha, beta, a, n, cpi)
    curve_ok(lambda x, k: m.by_impressions([x], k), "real", xs, mf, n, cpi)
    spend_ok(m, xs, mf, cpi)
    top = m.by_impressions([2 * m._max_impressions], 1)
    check("whole audience at its total inventory", abs(float(top.reach(1)) - n) <= 1e-6 * (1 + n))


# ------------------------------------------------------------------ Dirac mixture
def dirac(kp, universe, ws, cpi):
    m = DiracMixtureSinglePublisherModel([point(100, kp, cpi, universe)], 10)
    o = UnivariateMixedPoissonOptimizer(m.hist, 10)
    w = np.array([ws[j % len(ws)] for j in range(len(o.components))])
    o.ws, o.fitted = w / w.sum(), True
    m.optimizer, m._fit_computed = o, True
    return m


def gen_kp(g):
    v = sorted([g.rng.randint(0, 90) for _ in range(g.rng.randint(1, 5))], reverse=True)
    return v


@lemma(props=["C11"], types=dict(kp=List(Int), universe=Int, ws=List(Real), cpi=Real, mf=Int, xs=List(Real)), symbolic=False,
       gen=dict(kp=gen_kp, universe=lambda g: g.rng.choice([100, 1000, 91]), ws=lambda g: [g.rng.choice([0.0, 1.0, g.rng.random()]) for _ in range(6)] + [0.1],
                cpi=gen_cpi, mf=gen_mf, xs=gen_imps))
def dirac_curve(kp, universe, ws, cpi, mf, xs):
    m = dirac(kp, universe, ws, cpi)
    curve_ok(lambda x, k: m.by_impressions([x], k), "int", xs, mf, universe, cpi)
    spend_ok(m, xs, mf, cpi)
    import math
    x = xs[1]
    q = m.by_impressions([x], 2)
    o = m.optimizer
    for k in (1, 2):
        want = universe * sum(w * (1 - sum(math.exp(-c * x / 100) * (c * x / 100) ** j / math.factorial(j) for j in range(k))) for w, c in zip(o.ws, o.components))
        check("k+ reach of the Poisson mixture at the scaled intensity", abs(float(q.reach(k)) - want) <= 0.5 + 1e-6 * universe)


@lemma(props=["C11"], types=dict(mean=Real, mf=Int), symbolic=False, gen=dict(mean=lambda g: g.rng.choice([0.0, 1.0, 30.0, g.rng.random() * 5]), mf=gen_mf))
def truncated_poisson(mean, mf):
    import math
    v = UnivariateMixedPoissonOptimizer.truncated_poisson_pmf_vec(mean, mf)
    check("one probability per frequency including zero", len(v) == mf + 1)
    check("a probability distribution", abs(float(sum(v)) - 1) < 1e-9 and all(x >= 0 for x in v))
    check("Poisson below the cap", all(abs(float(v[j]) - math.exp(-mean) * mean ** j / math.factorial(j)) < 1e-9 for j in range(mf)))


@lemma(props=["C11"], types=dict(kp=List(Int), universe=Int, n=Int), symbolic=False,
       gen=dict(kp=gen_kp, universe=lambda g: g.rng.choice([100, 1000]), n=lambda g: g.rng.choice([1, 5, 50, 200])))
def dirac_components(kp, universe, n):
    m = DiracMixtureSinglePublisherModel([point(100, kp, None, universe)], n)
    for o in (UnivariateMixedPoissonOptimizer.in_bound_purely_weighted_grid(n, m.hist / m.hist.sum()),
              UnivariateMixedPoissonOptimizer.in_bound_uniform_grid(n, m.hist / m.hist.sum())):
        check("intensities between zero and the largest frequency plus one", all(0 <= x <= len(m.hist) + 1 for x in o))
        check("at least the requested number of components, spread in order", len(o) >= n and all(b >= a for a, b in zip(o, o[1:])))
    check("histogram includes zero and sums to the universe", int(m.hist.sum()) == universe and len(m.hist) == len(kp) + 1)


# ------------------------------------------------------------------ ground truth
class VectorData(object):
    """a data set that answers with the vector it was asked for"""

    def __init__(self, p, pub):
        self.publisher_count = p
        self._data = [pub for i in range(p)]

    def reach_by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(impressions, [max_frequency])

    def reach_by_spend(self, spends, max_frequency=1):
        return ReachPoint(spends, [max_frequency + 1])


class OnePub(object):
    def __init__(self, m):
        self.max_reach = m

    def impressions_by_spend(self, spend):
        return spend + 1


@lemma(props=["C11"], types=dict(p=Nat, i=Nat, x=Real, mf=Int, m=Int, bad=List(Real)), concrete=False)
def ground_truth_curve(p, i, x, mf, m, bad):
    assume(i < p)
    d = VectorData(p, OnePub(m))
    c = GroundTruthReachCurveModel(d, i)
    check("maximum reach of the publisher", c.max_reach == m)
    r = c.by_impressions([x], mf)
    check("impressions only of the publisher", len(r.impressions) == p and r.impressions[i] == x and forall(0, p, lambda k: k == i or r.impressions[k] == 0))
    check("requested frequency", r.reach(1) == mf)
    s = c.by_spend([x], mf)
    check("spend only of the publisher", len(s.impressions) == p and s.impressions[i] == x and forall(0, p, lambda k: k == i or s.impressions[k] == 0))
    check("requested frequency by spend", s.reach(1) == mf + 1)
    check("impressions bought are the publisher's", c.impressions_for_spend(x) == x + 1)
    if len(bad) != 1:
        expect_raises(ValueError, lambda: c.by_impressions(bad, mf))
        expect_raises(ValueError, lambda: c.by_spend(bad, mf))


@lemma(props=["C11"], symbolic=False, types=dict(logs=List(List(Tuple(Int, Real))), i=Nat, mf=Int),
       gen=dict(logs=lambda g: [[(g.rng.randint(0, 6), float(g.rng.randint(1, 9))) for _ in range(g.rng.randint(1, 9))] for _ in range(g.rng.randint(1, 4))],
                i=lambda g: g.rng.randrange(len(g.args["logs"])), mf=gen_mf))
def ground_truth_real(logs, i, mf):
    d = DataSet([PublisherData(list(l), str(j)) for j, l in enumerate(logs)], "d")
    c = GroundTruthReachCurveModel(d, i)
    users = len(set(u for u, _ in logs[i]))
    check("maximum reach", c.max_reach == users)
    prev = None
    srt = sorted(logs[i], key=lambda e: e[1])
    for n in range(0, len(logs[i]) + 2):
        p = c.by_impressions([n], mf)
        cnt = {}
        for u, _ in srt[:n]:
            cnt[u] = cnt.get(u, 0) + 1
        check("number of k+ reaches", p.max_frequency == mf)
        if len(set(s for _, s in srt)) == len(srt):
            check("k+ reach of the first impressions", [p.reach(k) for k in range(1, mf + 1)] == [sum(1 for v in cnt.values() if v >= k) for k in range(1, mf + 1)])
        check("at most the audience, monotone", p.reach(1) <= users and (prev is None or all(p.reach(k) >= prev.reach(k) for k in range(1, mf + 1))))
        prev = p
    for s in [0, 0.5] + [e[1] for e in logs[i]]:
        cnt = {}
        for u, x in logs[i]:
            if x <= s:
                cnt[u] = cnt.get(u, 0) + 1
        q = c.by_spend([s], mf)
        check("k+ reach of a spend", [q.reach(k) for k in range(1, mf + 1)] == [sum(1 for v in cnt.values() if v >= k) for k in range(1, mf + 1)])
        check("impressions bought", c.impressions_for_spend(s) == sum(1 for e in logs[i] if e[1] <= s))


# ------------------------------------------------------------------ construction and conversions
@lemma(props=["C11"], types=dict(imps=Real, r=Int, cpi=Real, s=Real, extra=Bool))
def model_rejections(imps, r, cpi, s, extra):
    assume(r >= 0 and imps >= 0 and cpi > 0 and s >= 0)
    pt = ReachPoint([imps], [r], [imps * cpi], r + 10)
    data = [pt, pt] if extra else [pt]
    if extra or imps < 0.001 or imps < r:
        expect_raises(ValueError, lambda: GammaPoissonModel(data))
        expect_raises(ValueError, lambda: KInflatedGammaPoissonModel(data))
        expect_raises(ValueError, lambda: DiracMixtureSinglePublisherModel(data))
    else:
        for m in (GammaPoissonModel(data), KInflatedGammaPoissonModel(data), DiracMixtureSinglePublisherModel(data)):
            check("impressions for a spend at the training cost", close(m.impressions_for_spend(s), s / cpi))


@lemma(props=["C11"], types=dict(imps=Real, r=Int, kp=List(Real)))
def without_spend(imps, r, kp):
    assume(r >= 0 and imps >= 1 and imps >= r)
    pt = ReachPoint([imps], [r], None, r + 10)
    for m in (GammaPoissonModel([pt]), KInflatedGammaPoissonModel([pt]), DiracMixtureSinglePublisherModel([pt])):
        expect_raises(ValueError, lambda: m.impressions_for_spend(1))
    expect_raises(ValueError, lambda: DiracMixtureSinglePublisherModel([ReachPoint([imps], [r])]))


@lemma(props=["C11"], types=dict(h=List(Real)))
def suffix_sums(h):
    c = ReachCurve([ReachPoint([1], [1])])
    r = c._kplus_reaches_from_frequencies(h)
    check("one k+ reach per frequency", len(r) == len(h))
    check("k+ reaches are suffix sums", forall(0, len(h), lambda k: close(r[k], total(k, len(h), lambda j: h[j]))))


@lemma(props=["C11"], types=dict(kp=List(Int), imps=Int, mf=Int), symbolic=False, max_cases=6,
       gen=dict(kp=lambda g: [max(1, x) for x in gen_kp(g)], imps=lambda g: g.args["kp"][0] + sum(g.args["kp"]), mf=gen_mf))
def fitted_gamma_poisson(kp, imps, mf):
    m = GammaPoissonModel([ReachPoint([imps], kp, [imps * 2.0])])
    m._fit()
    n = float(m.max_reach)
    check("audience at least the observed reach", n >= kp[0] - 1e-6)
    curve_ok(lambda x, k: m.by_impressions([x], k), "real", [0, 1, imps / 2, imps, 5 * imps], mf, n, 2.0)


@lemma(props=["C11"], types=dict(kp=List(Int), imps=Int, mf=Int), symbolic=False, max_cases=6,
       gen=dict(kp=lambda g: [max(1, x) for x in gen_kp(g)][:3], imps=lambda g: g.args["kp"][0] + sum(g.args["kp"]), mf=gen_mf))
def fitted_inflated(kp, imps, mf):
    m = KInflatedGammaPoissonModel([ReachPoint([imps], kp, [imps * 2.0])], 2)
    m._fit()
    n = float(m.max_reach)
    curve_ok(lambda x, k: m.by_impressions([x], k), "real", [0, 1, imps / 2, imps, 5 * imps], mf, n, 2.0)


@lemma(props=["C11"], types=dict(kp=List(Int), universe=Int, mf=Int), symbolic=False, max_cases=6,
       gen=dict(kp=gen_kp, universe=lambda g: g.rng.choice([100, 500]), mf=gen_mf))
def fitted_dirac(kp, universe, mf):
    imps = sum(kp) + 1
    m = DiracMixtureSinglePublisherModel([ReachPoint([imps], kp, [imps * 2.0], universe)], 10)
    curve_ok(lambda x, k: m.by_impressions([x], k), "int", [0, 1, imps / 2, imps, 5 * imps], mf, universe, 2.0)
    check("weights on the simplex", bool((m.optimizer.ws >= -1e-5).all()) and abs(float(m.optimizer.ws.sum()) - 1) < 1e-4)
