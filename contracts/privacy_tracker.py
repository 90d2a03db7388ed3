"""Privacy ledger (C04)."""
from pyvc_dsl import *
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, SamplingBucketIndices, NoisingEvent, PrivacyTracker

# (epsilon, delta, smallest index, rate)
EV = List(Tuple(Real, Real, Real, Real))


def events_of(evs):
    return [NoisingEvent(PrivacyBudget(e[0], e[1]), "m", {}, SamplingBucketIndices(e[2], e[3])) for e in evs]


def tracker_of(evs):
    t = PrivacyTracker()
    for e in evs:
        t.append(NoisingEvent(PrivacyBudget(e[0], e[1]), "m", {}, SamplingBucketIndices(e[2], e[3])))
    return t


def covers(e, x):
    """the interval [e2, e2 + e3), wrapping around 1, covers x"""
    return (e[2] <= x and x < e[2] + e[3]) or (x < e[2] and x + 1 < e[2] + e[3])


def gen_events(g):
    grid = g.rng.choice([4, 8, 16])
    return [(g.rng.randint(0, 8) / 4, g.rng.randint(0, 8) / 16, g.rng.randint(0, grid - 1) / grid, g.rng.randint(0, grid) / grid)
            for _ in range(g.rng.randint(0, 7))]


def gen_unit(g):
    if g.args.get("evs") and g.rng.random() < 0.6:
        e = g.rng.choice(g.args["evs"])
        return g.rng.choice([e[2], max(0, min(e[2] + e[3], 0.999)), max(0.0, e[2] + e[3] - 1)])
    return g.rng.randint(0, 39) / 40


@lemma(props=["C04"], types=dict(s=Real, r=Real, x=Real), gen=dict(
    s=lambda g: g.rng.randint(0, 7) / 8, r=lambda g: g.rng.randint(0, 8) / 8, x=lambda g: g.rng.randint(0, 15) / 16))
def interval_membership(s, r, x):
    assume(0 <= s and s < 1 and 0 <= r and r <= 1 and 0 <= x and x < 1)
    b = SamplingBucketIndices(s, r)
    check("wrapping half-open interval", iff(b.contains(x), covers((0, 0, s, r), x)))


@lemma(props=["C04"], types=dict(evs=EV, x=Real), inline=True, gen=dict(evs=gen_events, x=gen_unit))
def per_bucket(evs, x):
    assume(0 <= x and x < 1)
    t = tracker_of(evs)
    p = t.privacy_consumption_for_sampling_bucket(x)
    check("epsilon of a bucket is the sum over the events covering it",
          eq(p.epsilon, total(0, len(evs), lambda j: evs[j][0] if covers(evs[j], x) else 0)))
    check("delta of a bucket is the sum over the events covering it",
          eq(p.delta, total(0, len(evs), lambda j: evs[j][1] if covers(evs[j], x) else 0)))
    check("one mechanism per event", len(t.mechanisms) == len(evs))


@contract("simulator.privacy_tracker:PrivacyTracker.privacy_consumption_for_sampling_bucket", props=["C04"],
          types=dict(self=Made("tracker_of", evs=EV), sampling_bucket=Real), gen=dict(sampling_bucket=gen_unit),
          returns=NT("simulator.privacy_tracker:PrivacyBudget", Real, Real), functional=["sampling_bucket"])
def bucket_consumption(self, sampling_bucket):
    """the consumption of a bucket is a function of the ledger and the bucket"""
    result = body(self, sampling_bucket)
    again = body(self, sampling_bucket)
    check("same query, same epsilon", result.epsilon == again.epsilon)
    check("same query, same delta", result.delta == again.delta)
    return result


@lemma(props=["C04"], types=dict(evs=EV, x=Real, s=Real), inline=True, gen=dict(
    evs=gen_events, x=gen_unit, s=lambda g: max([0] + [e[2] for e in g.args["evs"] if e[2] <= g.args["x"]])))
def no_bucket_exceeds_its_start(evs, x, s):
    """s: the last starting point at or before x (0 counts as one)"""
    assume(0 <= x and x < 1 and 0 <= s and s <= x)
    assume(s == 0 or exists(0, len(evs), lambda j: evs[j][2] == s))
    assume(forall(0, len(evs), lambda j: evs[j][0] >= 0 and evs[j][1] >= 0 and evs[j][2] >= 0 and evs[j][2] < 1 and evs[j][3] >= 0))
    assume(forall(0, len(evs), lambda j: implies(evs[j][2] <= x, evs[j][2] <= s)))
    t = tracker_of(evs)
    px = t.privacy_consumption_for_sampling_bucket(x)
    ps = t.privacy_consumption_for_sampling_bucket(s)
    check("epsilon at x is at most that at the start before it", le(px.epsilon, ps.epsilon))
    check("delta at x is at most that at the start before it", le(px.delta, ps.delta))


@lemma(props=["C04"], types=dict(evs=EV, i=Int), gen=dict(evs=gen_events, i=lambda g: g.rng.randint(-1, max(0, len(g.args["evs"]) - 1))))
def total_bounds_every_start(evs, i):
    assume(-1 <= i and i < len(evs))
    assume(forall(0, len(evs), lambda j: evs[j][0] >= 0 and evs[j][1] >= 0))
    t = tracker_of(evs)
    s = 0 if i == -1 else evs[i][2]
    p = t.privacy_consumption
    q = t.privacy_consumption_for_sampling_bucket(s)
    check("total epsilon is at least that of any start", le(q.epsilon, p.epsilon))
    check("total delta is at least that of any start", le(q.delta, p.delta))


@lemma(props=["C04"], types=dict(evs=EV), gen=dict(evs=gen_events))
def total_is_attained(evs):
    """with budgets_are_not_negative: a total of 0 is attained at 0, any other total at a recorded start"""
    t = tracker_of(evs)
    p = t.privacy_consumption
    z = t.privacy_consumption_for_sampling_bucket(0)
    check("some bucket consumed exactly the total epsilon", p.epsilon == 0 or eq(p.epsilon, z.epsilon)
          or exists(0, len(evs), lambda j: eq(p.epsilon, t.privacy_consumption_for_sampling_bucket(evs[j][2]).epsilon)))
    check("some bucket consumed exactly the total delta", p.delta == 0 or eq(p.delta, z.delta)
          or exists(0, len(evs), lambda j: eq(p.delta, t.privacy_consumption_for_sampling_bucket(evs[j][2]).delta)))


@lemma(props=["C04"], types=dict(evs=EV, x=Real), inline=True, gen=dict(evs=gen_events, x=gen_unit))
def budgets_are_not_negative(evs, x):
    assume(forall(0, len(evs), lambda j: evs[j][0] >= 0 and evs[j][1] >= 0))
    t = tracker_of(evs)
    p = t.privacy_consumption_for_sampling_bucket(x)
    check("epsilon of a bucket is at least 0", p.epsilon >= 0)
    check("delta of a bucket is at least 0", p.delta >= 0)


MECHS = ["Laplace", "Discrete Laplace", "Gaussian", "Discrete Gaussian"]


@lemma(props=["C04"], types=dict(evs=EV, ms=List(Str), cut=Nat), symbolic=False, gen=dict(
    evs=gen_events, ms=lambda g: [g.rng.choice(MECHS) for _ in g.args["evs"]], cut=lambda g: g.rng.randint(0, 7)))
def ledger_history(evs, ms, cut):
    """queries interleaved with recording; the default interval is everything"""
    t = PrivacyTracker()
    xs = [k / 80 for k in range(80)]
    for n in range(len(evs) + 1):
        sums = [(sum(e[0] for e in evs[:n] if covers(e, x)), sum(e[1] for e in evs[:n] if covers(e, x)))
                for x in xs + [0] + [e[2] for e in evs[:n]]]
        p = t.privacy_consumption
        check("epsilon is the worst bucket", eq(p.epsilon, max(a for a, b in sums)))
        check("delta is the worst bucket", eq(p.delta, max(b for a, b in sums)))
        check("mechanisms in order", t.mechanisms == ms[:n])
        if n < len(evs):
            e = evs[n]
            if (e[2], e[3]) == (0, 1) and n % 2 == 0:
                t.append(NoisingEvent(PrivacyBudget(e[0], e[1]), ms[n], {}))
            else:
                t.append(NoisingEvent(PrivacyBudget(e[0], e[1]), ms[n], {"k": n}, SamplingBucketIndices(e[2], e[3])))
    u = PrivacyTracker()
    check("a new tracker is empty", u.privacy_consumption == PrivacyBudget(0, 0) and u.mechanisms == [])
