"""Simulated private requests: budget accounting, well-formed estimates, Venn regions, strategies (C05, C06, C07)."""
from pyvc_dsl import *
import numpy as np
from itertools import combinations
from wfa_cardinality_estimation_evaluation_framework.estimators import same_key_aggregator as SKA
from wfa_cardinality_estimation_evaluation_framework.estimators import estimator_noisers as NOISE
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.publisher import Publisher
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker, NoisingEvent, SamplingBucketIndices
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

LOG = List(Tuple(Int, Real))
LOGS = List(LOG)


# ------------------------------------------------------------------ generators
def gen_logs(g, lo=1, hi=4):
    logs = []
    for _ in range(g.rng.randint(lo, hi)):
        u = g.rng.choice([1, 3, 6])
        logs.append([(g.rng.randint(0, u), g.rng.choice([0.5, 1.0, 1.5, 2.0, 3.0, float(g.rng.randint(1, 9))]))
                     for _ in range(g.rng.randint(1, 8))])
    return logs


def gen_spends(g):
    return [g.rng.choice([0, 0, 1.0, 1.5, 3.0, 2.0, 100.0, g.rng.random() * 9]) for _ in g.args["logs"]]


def gen_fracs(g):
    return [g.rng.choice([1.0, 1.0, 0.5, g.rng.random()]) for _ in g.args["logs"]]


def gen_est(g):
    """estimates an estimator may return: negative, increasing, fractional, huge"""
    return [g.rng.choice([0, 1, 2, 5, 3.4, -1, -2.5, 20, 10 ** 6, g.rng.randint(-3, 12)]) for _ in range(g.args["mf"])]


def gen_mf(g):
    return g.rng.choice([1, 1, 2, 3, 5, 10])


def gen_eps(g):
    return g.rng.choice([1.0, 0.3, 2.5, 0.01])


def gen_delta(g):
    return g.rng.choice([1e-5, 0.01, 0.25, 1e-9])


def gen_split(g):
    return g.rng.choice([0.5, 0.25, 0.9, g.rng.random(), g.rng.random()])


def gen_noise(g):
    return [g.rng.choice([0, 0, -1, 1, -3, 5, -50, 2]) for _ in range(8)]


def data_set(logs):
    return DataSet([PublisherData(list(l), str(i)) for i, l in enumerate(logs)], "d")


def params(fracs, seed=1):
    return SystemParameters(list(fracs), LiquidLegionsParameters(decay_rate=1, sketch_size=50, random_seed=1), np.random.default_rng(seed))


def build(logs, fracs, seed=1):
    t = PrivacyTracker()
    return HaloSimulator(data_set(logs), params(fracs, seed), t), t


class hooked(object):
    """injects the estimates / noise, and records what the code asked for"""

    def __init__(self, est=None, noise=None):
        self.est, self.noise, self.i = est, noise, 0

    def __enter__(self):
        def noise(eps):
            self.i += 1
            return self.noise[self.i % len(self.noise)]
        SKA.HOOK.estimates = (lambda sk, mf: (list(self.est) + [0] * mf)[:mf]) if self.est is not None else None
        NOISE.HOOK.noise = noise if self.noise is not None else None
        SKA.HOOK.built, NOISE.HOOK.built, NOISE.HOOK.applied = [], [], []
        return self

    def __exit__(self, *a):
        SKA.HOOK.estimates = NOISE.HOOK.noise = None
        return False


def charges(t):
    """(epsilon, delta) of every recorded event"""
    return [(e.budget.epsilon, e.budget.delta) for e in t._noising_events]


def event_costs(log, s):
    return [x for x in log if x[1] <= s]


def user_counts(logs, spends):
    """impressions per user over all publishers, and the set of publishers that reached the user"""
    n, pubs = {}, {}
    for i, (log, s) in enumerate(zip(logs, spends)):
        for u, _ in event_costs(log, s):
            n[u] = n.get(u, 0) + 1
            pubs.setdefault(u, set()).add(i)
    return n, pubs


# ------------------------------------------------------------------ C06
class Rng(object):
    def integers(self, low=0, high=1):
        return 7


class Sketch(object):
    """a sketch for which the estimator returns the given numbers"""

    def __init__(self, est):
        self.est = est

    def merged(self, other):
        return self

    def estimate(self, max_freq):
        return self.est


class SketchPublisher(object):
    def __init__(self, est):
        self.est = est

    def liquid_legions_sketch(self, spend):
        return Sketch(self.est)


class Ledger(object):
    """stands for the data set and counts what is charged"""

    def __init__(self, imps, universe):
        self.imps = imps
        self.universe_size = universe
        self.epsilon = 0
        self.delta = 0
        self.events = 0

    def impressions_by_spend(self, spends):
        return self.imps

    def append(self, event):
        self.epsilon += event.budget.epsilon
        self.delta += event.budget.delta
        self.events += 1


class FixedHalo(HaloSimulator):
    """the real requests on arbitrary estimates and impressions"""

    def __init__(self, est, ledger, p):
        self._data_set = ledger
        self._params = SystemParameters([1], LiquidLegionsParameters(), Rng())
        self._privacy_tracker = ledger
        self._publishers = [SketchPublisher(est) for i in range(p)]


@lemma(props=["C06", "C05"], types=dict(est=List(Real), imps=List(Nat), spends=List(Real), universe=Int, mf=Int, eps=Real, delta=Real, split=Real), concrete=False)
def request_on_any_estimate(est, imps, spends, universe, mf, eps, delta, split):
    mf = len(est)
    p = len(imps)
    assume(mf >= 1 and p >= 1 and len(spends) == p)
    n = sum(imps)
    ledger = Ledger(imps, universe)
    h = FixedHalo(est, ledger, p)
    r = h.simulated_reach_by_spend(spends, PrivacyBudget(eps, delta), split, mf)
    check("as many k+ reaches as requested", r.max_frequency == mf)
    check("not negative", forall(1, mf + 1, lambda k: r.reach(k) >= 0))
    check("not increasing", forall(1, mf, lambda k: r.reach(k + 1) <= r.reach(k)))
    check("below the impressions", implies(n > 1, r.reach(1) < n))
    check("at most one where at most one impression was delivered", implies(n <= 1, r.reach(1) <= 1))
    check("impressions of the point", eq(list(r.impressions), list(imps)))
    check("spends of the point", eq(list(r.spends), list(spends)))
    check("universe size of the point", r._universe_size == universe)
    check("charged epsilon is the granted one", close(ledger.epsilon, eps))
    check("charged delta is the granted one", close(ledger.delta, delta))


@lemma(props=["C06", "C05"], symbolic=False, types=dict(logs=LOGS, mf=Int, spends=List(Real), fracs=List(Real), est=List(Real), eps=Real, delta=Real, split=Real),
       gen=dict(logs=gen_logs, spends=gen_spends, fracs=gen_fracs, mf=gen_mf, est=gen_est, eps=gen_eps, delta=gen_delta, split=gen_split))
def reach_request(logs, mf, spends, fracs, est, eps, delta, split):
    h, t = build(logs, fracs)
    sp = list(spends)
    with hooked(est):
        r = h.simulated_reach_by_spend(sp, PrivacyBudget(eps, delta), split, max_frequency=mf)
        built = list(SKA.HOOK.built)
    check("spends argument unchanged", sp == spends)
    kp = [r.reach(k) for k in range(1, mf + 1)]
    n = sum(len(event_costs(l, s)) for l, s in zip(logs, spends))
    check("as many k+ reaches as requested", r.max_frequency == mf)
    check("not negative, not increasing", all(x >= 0 for x in kp) and all(a >= b for a, b in zip(kp, kp[1:])))
    check("below the impressions", kp[0] < n if n > 1 else kp[0] <= 1)
    check("impressions of the spends", list(r.impressions) == [len(event_costs(l, s)) for l, s in zip(logs, spends)])
    check("spends", list(r.spends) == list(spends))
    check("universe size", r._universe_size == h._data_set.universe_size)
    clean = [max(0, round(x)) for x in est]
    want = [min(clean[:i + 1]) for i in range(mf)]
    if want[0] < n:
        check("estimates are rounded, clamped at zero and made non-increasing", kp == want)
    check("charges add up to the granted budget", close(sum(e for e, _ in charges(t)), eps) and close(sum(d for _, d in charges(t)), delta))
    check("one estimator", len(built) == 1)
    b = built[0]
    check("noise is applied with the charged budgets", sorted(charges(t)) == sorted([(b.reach_epsilon, b.reach_delta), (b.frequency_epsilon, b.frequency_delta)])
          and b.reach_noiser_class is not None and b.frequency_noiser_class is not None)
    check("split of the budget", close(b.reach_epsilon, eps * split) and close(b.reach_delta, delta * split))
    check("every event covers all buckets", all(e.sampling_buckets.contains(x) for e in t._noising_events for x in (0, 0.3, 0.999)))
    # the sketch holds exactly the users reached below the campaign spend
    lim = [min(s, f * max(x[1] for x in l)) for s, f, l in zip(spends, fracs, logs)]
    counts, _ = user_counts(logs, lim)
    check("sketch holds every delivered impression once", b.sketch.counts == counts)


@lemma(props=["C06"], symbolic=False, types=dict(logs=LOGS, spends=List(Real), fracs=List(Real), mf=Int),
       gen=dict(logs=gen_logs, spends=gen_spends, fracs=gen_fracs, mf=gen_mf))
def true_reach_passes_through(logs, spends, fracs, mf):
    h, t = build(logs, fracs)
    r = h.true_reach_by_spend(spends, mf)
    counts, _ = user_counts(logs, spends)
    check("true reach", [r.reach(k) for k in range(1, mf + 1)] == [sum(1 for c in counts.values() if c >= k) for k in range(1, mf + 1)])
    check("nothing charged for a true reach", len(t._noising_events) == 0)
    check("maximum spends", list(h.max_spends) == [max(x[1] for x in l) for l in logs])
    check("campaign spends", list(h.campaign_spends) == [f * max(x[1] for x in l) for f, l in zip(fracs, logs)])
    p = h._publishers[0].true_reach_by_spend(spends[0], mf)
    c0, _ = user_counts(logs[:1], spends[:1])
    check("publisher's own reach", [p.reach(k) for k in range(1, mf + 1)] == [sum(1 for c in c0.values() if c >= k) for k in range(1, mf + 1)]
          and list(p.impressions) == [sum(c0.values())] and list(p.spends) == [spends[0]])


# ------------------------------------------------------------------ C07
def subsets(xs):
    return [c for r in range(1, len(xs) + 1) for c in combinations(xs, r)]


def mask(ids):
    return sum(1 << i for i in ids)


@lemma(props=["C07"], symbolic=False, types=dict(logs=LOGS, spends=List(Real), fracs=List(Real), mf=Int),
       gen=dict(logs=gen_logs, spends=gen_spends, fracs=gen_fracs, mf=gen_mf))
def regions_partition_users(logs, spends, fracs, mf):
    h, t = build(logs, fracs)
    reg = h._form_venn_diagram_regions(list(spends), mf)
    active = [i for i, s in enumerate(spends) if s]
    counts, pubs = user_counts(logs, [s if s else -1 for s in spends])
    check("a region per non-empty subset of active publishers", sorted(reg) == sorted(mask(c) for c in subsets(active)))
    for r, kp in reg.items():
        us = [u for u in counts if mask(pubs[u]) == r]
        check("k+ reaches of a region", list(kp) == [sum(1 for u in us if counts[u] >= k) for k in range(1, mf + 1)])
    check("every user in exactly one region", sum(kp[0] for kp in reg.values()) == len(counts))


@lemma(props=["C07"], symbolic=False, types=dict(logs=LOGS, spends=List(Real), vals=List(Real)),
       gen=dict(logs=gen_logs, spends=gen_spends, vals=lambda g: [g.rng.choice([0, 1, 2, 0.5, 7, 100]) for _ in range(16)]))
def unions_add_up(logs, spends, vals):
    h, t = build(logs, [1.0] * len(logs))
    active = [i for i, s in enumerate(spends) if s]
    regs = {mask(c): vals[j % len(vals)] for j, c in enumerate(subsets(active))}
    for c in subsets(active):
        check("union is the sum of the regions that intersect", close(h._aggregate_reach_in_primitive_venn_diagram_regions(list(c), dict(regs)),
              sum(v for r, v in regs.items() if any(r >> i & 1 for i in c))))
    pts = h._generate_reach_points_from_venn_diagram(list(spends), dict(regs))
    check("a point per non-empty subset", len(pts) == len(subsets(active)))
    seen = []
    for p in pts:
        on = tuple(i for i in range(len(spends)) if p.spends[i])
        seen.append(on)
        check("impressions and spends of the subset only", list(p.spends) == [s if i in on else 0 for i, s in enumerate(spends)]
              and list(p.impressions) == [len(event_costs(l, s)) if i in on else 0 for i, (l, s) in enumerate(zip(logs, spends))])
        check("reach of the subset", close(p.reach(1), sum(v for r, v in regs.items() if any(r >> i & 1 for i in on))))
        check("universe size", p._universe_size == h._data_set.universe_size)
    check("each subset once", sorted(seen) == sorted(subsets(active)))


@lemma(props=["C07", "C05"], symbolic=False, types=dict(logs=LOGS, spends=List(Real), noise=List(Int), eps=Real, delta=Real, split=Real, seed=Nat),
       gen=dict(logs=gen_logs, spends=gen_spends, noise=gen_noise, eps=gen_eps, delta=gen_delta, split=gen_split, seed=lambda g: g.rng.randrange(10 ** 6)))
def venn_request(logs, spends, noise, eps, delta, split, seed):
    h, t = build(logs, [1.0] * len(logs), seed)
    counts, pubs = user_counts(logs, spends)
    active = [i for i, s in enumerate(spends) if s]
    try:
        with hooked(noise=noise):
            pts = h.simulated_venn_diagram_reach_by_spend(list(spends), PrivacyBudget(eps, delta), split)
            built, applied = list(NOISE.HOOK.built), list(NOISE.HOOK.applied)
    except RuntimeError:
        assume(False)           # zero active registers: documented failure of the sketch configuration
    if not active:
        check("no point without an active publisher", pts == [] and charges(t) == [])
    else:
        check("a point per non-empty subset", len(pts) == len(subsets(active)))
        check("charges add up to the granted budget", close(sum(e for e, _ in charges(t)), eps) and close(sum(d for _, d in charges(t)), delta))
        check("noise applied with the charged budgets", sorted(set(applied)) == sorted(set(e for e, _ in charges(t))))
        check("every region and the total are noised", len(applied) == len(subsets(active)) + 1)
        whole = [p for p in pts if all(p.spends[i] for i in active)][0]
        check("monotone in the subset", all(p.reach(1) <= whole.reach(1) + 1e-9 for p in pts) or whole.reach(1) < 0)


def gen_regs(g):
    return {mask(c): g.rng.choice([0, 0, 1, 2, 9]) for c in subsets(range(g.rng.randint(1, 3)))}


@lemma(props=["C07", "C05"], symbolic=False, types=dict(regs=Dict(Int, Int), noise=List(Int), eps=Real, delta=Real, split=Real, card=Int, seed=Nat),
       gen=dict(regs=gen_regs, noise=gen_noise, eps=gen_eps, delta=gen_delta, split=gen_split, card=lambda g: g.rng.choice([0, 5, 100]),
                seed=lambda g: g.rng.randrange(10 ** 6)))
def region_steps(regs, noise, eps, delta, split, card, seed):
    h, t = build([[(1, 1.0)]], [1.0], seed)
    tot = sum(regs.values())
    k = seed % (tot + 1)
    s = h._sample_venn_diagram({r: [v] for r, v in regs.items()}, k)
    check("sampling keeps the regions", sorted(s) == sorted(regs))
    check("a sample of the given size without repetition", sum(s.values()) == k and all(0 <= s[r] <= regs[r] for r in regs))
    expect_raises(ValueError, lambda: h._sample_venn_diagram({r: [v] for r, v in regs.items()}, tot + 1))
    with hooked(noise=noise):
        n = h._add_dp_noise_to_primitive_regions(dict(regs), PrivacyBudget(eps, delta), split)
        a1 = list(NOISE.HOOK.applied)
    check("noising keeps the regions", sorted(n) == sorted(regs))
    check("noised reaches are clamped at zero", all(v >= 0 for v in n.values()))
    check("each region is noised once", len(a1) == len(regs))
    check("noised reach is reach plus noise", all(n[r] in [max(0, v + x) for x in noise] for r, v in regs.items()))
    check("noising is charged", len(t._noising_events) == 1 and close(charges(t)[0][0], eps * split) and close(charges(t)[0][1], delta * split))
    check("with the budget of the noiser", all(x == charges(t)[0][0] for x in a1))
    with hooked(noise=[0]):
        c = h._scale_up_reach_in_primitive_regions(dict(n), card, 0.0, PrivacyBudget(eps, delta), split)
        a2 = list(NOISE.HOOK.applied)
    check("scaling keeps the regions", sorted(c) == sorted(regs))
    m = sum(n.values())
    check("scaled to the estimated cardinality", close(sum(c.values()), card if m else 0))
    check("in proportion", all(close(c[r] * m, n[r] * card) for r in regs) if m else all(v == 0 for v in c.values()))
    check("scaling is charged", len(t._noising_events) == 2 and close(charges(t)[1][0], eps * split) and close(charges(t)[1][1], delta * split)
          and a2 == [charges(t)[1][0]])


@lemma(props=["C07"], symbolic=False, types=dict(n=Nat), gen=dict(n=lambda g: g.rng.choice([19, 20, 21, 22])), max_cases=4)
def too_many_publishers(n):
    if n <= 20:
        assume(False)
    h, t = build([[(1, 1.0)]] * n, [1.0] * n)
    expect_raises(ValueError, lambda: h._form_venn_diagram_regions([1.0] * n, 1))
    expect_raises(ValueError, lambda: h.simulated_venn_diagram_reach_by_spend([1.0] * n, PrivacyBudget(1.0, 0.1), 0.5, 2))


REGS = Dict(Int, Int)


class RngN(object):
    """a generator with an arbitrary normal draw"""

    def __init__(self, draw):
        self.draw = draw

    def integers(self, low=0, high=1):
        return 7

    def normal(self, mean, std):
        return self.draw


class RegionHalo(HaloSimulator):
    def __init__(self, ledger, draw):
        self._data_set = ledger
        self._params = SystemParameters([1], LiquidLegionsParameters(), RngN(draw))
        self._privacy_tracker = ledger
        self._publishers = []


@lemma(props=["C05", "C07"], types=dict(regs=REGS, eps=Real, delta=Real, split=Real), concrete=False)
def noising_is_charged(regs, eps, delta, split):
    ledger = Ledger([], 1)
    n = RegionHalo(ledger, 0)._add_dp_noise_to_primitive_regions(regs, PrivacyBudget(eps, delta), split)
    check("one event", ledger.events == 1)
    check("charged epsilon", close(ledger.epsilon, eps * split))
    check("charged delta", close(ledger.delta, delta * split))
    check("every region kept", forall_keys(regs, lambda r: r in n))
    check("no region added", forall_keys(n, lambda r: r in regs))
    check("clamped at zero", forall_keys(n, lambda r: n[r] >= 0))


@lemma(props=["C05", "C07"], types=dict(regs=REGS, draw=Real, card=Int, eps=Real, delta=Real, split=Real), concrete=False)
def scaling_is_charged(regs, draw, card, eps, delta, split):
    ledger = Ledger([], 1)
    n = RegionHalo(ledger, draw)._scale_up_reach_in_primitive_regions(regs, card, 1.0, PrivacyBudget(eps, delta), split)
    check("one event", ledger.events == 1)
    check("charged epsilon", close(ledger.epsilon, eps * split))
    check("charged delta", close(ledger.delta, delta * split))
    check("every region kept", forall_keys(regs, lambda r: r in n))
    check("no region added", forall_keys(n, lambda r: r in regs))


class VennHalo(RegionHalo):
    """the real Venn request and its two noising steps, on arbitrary regions and samples"""

    def __init__(self, ledger, draw, regs):
        self._data_set = ledger
        self._params = SystemParameters([1], LiquidLegionsParameters(), RngN(draw))
        self._privacy_tracker = ledger
        self._publishers = []
        self.regs = regs

    def true_reach_by_spend(self, spends, max_frequency=1):
        return ReachPoint([1], [1])

    def _form_venn_diagram_regions(self, spends, max_frequency=1):
        return self.regs

    def _liquid_legions_num_active_regions(self, n):
        return 1

    def _liquid_legions_cardinality_estimate_variance(self, n):
        return 1

    def _sample_venn_diagram(self, primitive_regions, sample_size):
        return primitive_regions

    def _generate_reach_points_from_venn_diagram(self, spends, primitive_regions):
        return []


@lemma(props=["C05"], types=dict(regs=REGS, draw=Real, spends=List(Real), eps=Real, delta=Real, split=Real), concrete=False)
def venn_charges(regs, draw, spends, eps, delta, split):
    ledger = Ledger([], 1)
    VennHalo(ledger, draw, regs).simulated_venn_diagram_reach_by_spend(spends, PrivacyBudget(eps, delta), split)
    check("charges exactly the budget, or nothing without regions", (close(ledger.epsilon, eps) and close(ledger.delta, delta)) or
          (len(regs) == 0 and ledger.events == 0))


# ------------------------------------------------------------------ C05: strategies
class CountingHalo(object):
    """records what a strategy asks for; answers every request with some reach point"""

    def __init__(self, spends):
        self.campaign_spends = spends
        self.publisher_count = len(spends)
        self.epsilon = 0
        self.delta = 0
        self.requests = 0
        self._data_set = None

    def simulated_reach_by_spend(self, spends, budget, privacy_budget_split=0.5, max_frequency=1):
        self.epsilon += budget.epsilon
        self.delta += budget.delta
        self.requests += 1
        return ReachPoint([100 for s in spends], [50 for k in range(max_frequency)], spends)

    def simulated_venn_diagram_reach_by_spend(self, spends, budget, privacy_budget_split=0.5, max_frequency=1):
        self.epsilon += budget.epsilon
        self.delta += budget.delta
        self.requests += 1
        return [ReachPoint([100 for s in spends], [50 for k in range(max_frequency)], spends)]


class AnyCurve(ReachCurve):
    def __init__(self, data):
        self._data = data

    def _fit(self):
        self._max_reach = 1


class AnySurface(object):
    def __init__(self, curves, points):
        self.curves = curves
        self.points = points

    def _fit(self):
        self.fitted = True


@lemma(props=["C05"], types=dict(spends=List(Real), eps=Real, delta=Real),
       gen=dict(spends=lambda g: [float(g.rng.randint(1, 9)) for _ in range(g.rng.choice([1, 2, 3, 4, 7]))], eps=gen_eps, delta=gen_delta))
def m3_strategy_budget(spends, eps, delta):
    assume(len(spends) >= 1 and eps >= 0 and delta >= 0)
    h = CountingHalo(spends)
    m = M3Strategy(AnyCurve, {}, AnySurface, {})
    m.fit(h, None, PrivacyBudget(eps, delta))
    check("charges at most the granted epsilon", le(h.epsilon, eps))
    check("charges at most the granted delta", le(h.delta, delta))
    check("at most two requests per publisher and one for the union", h.requests <= 2 * len(spends) + 1)


@lemma(props=["C05"], types=dict(spends=List(Real), eps=Real, delta=Real),
       gen=dict(spends=lambda g: [float(g.rng.randint(1, 9)) for _ in range(g.rng.choice([1, 1, 2]))], eps=gen_eps, delta=gen_delta))
def single_publisher_strategy_budget(spends, eps, delta):
    assume(len(spends) >= 1 and eps >= 0 and delta >= 0)
    h = CountingHalo(spends)
    m = SinglePublisherStrategy(AnyCurve, {}, AnySurface, {})
    if len(spends) != 1:
        expect_raises(ValueError, lambda: m.fit(h, None, PrivacyBudget(eps, delta)))
        check("nothing charged", h.requests == 0)
    else:
        m.fit(h, None, PrivacyBudget(eps, delta))
        check("charges exactly the granted epsilon", close(h.epsilon, eps))
        check("charges exactly the granted delta", close(h.delta, delta))


@lemma(props=["C05"], symbolic=False, types=dict(logs=LOGS, fracs=List(Real), eps=Real, delta=Real, truth=Bool),
       gen=dict(logs=lambda g: gen_logs(g, 1, 5), fracs=gen_fracs, eps=gen_eps, delta=gen_delta))
def planner_budget(logs, fracs, eps, delta, truth):
    """the whole chain: planner, strategy, halo, ledger"""
    logs = [l + [(50 + j, 0.5) for j in range(4)] for l in logs]
    t = PrivacyTracker()
    pr = params(fracs)
    h = HaloSimulator(data_set(logs), pr, t)
    single = len(logs) == 1 and truth
    st = SinglePublisherStrategy(AnyCurve, {}, AnySurface, {}) if single else M3Strategy(AnyCurve, {}, AnySurface, {}, truth)
    pl = PlannerSimulator(h, st, pr, t)
    with hooked():
        pl.fit_model(PrivacyBudget(eps, delta))
    c = t.privacy_consumption
    check("ledger within the granted budget", le(c.epsilon, eps) and le(c.delta, delta))
    check("something is charged", c.epsilon > 0 and c.delta > 0)
    if not single and len(logs) > 1:
        s = pl._model
        check("curve per publisher", len(s.curves) == len(logs))
        p = len(logs)
        check("training points: the union and, for three or more, all but one",
              sorted(tuple(1 if x else 0 for x in q.spends) for q in s.points) ==
              sorted([tuple([1] * p)] + ([tuple(0 if i == k else 1 for i in range(p)) for k in range(p)] if p > 2 else [])))
        if not truth:
            check("each curve is trained on its own publisher", all(list(cv._data[0].spends) == [h.campaign_spends[i]] and len(cv._data) == 1
                  and list(cv._data[0].impressions) == [len(event_costs(logs[i], h.campaign_spends[i]))] for i, cv in enumerate(s.curves)))
