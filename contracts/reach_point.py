"""ReachPoint accounting (C03)."""
from pyvc_dsl import *
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve

POINT = Obj("models.reach_point:ReachPoint", impressions=List(Int), kplus_reaches=List(Int), spends=Const(None), universe_size=Int)


@lemma(props=["C03"], types=dict(imp=List(Int), kp=List(Int), spends=List(Real), u=Int, k=Int))
def accessors(imp, kp, spends, u, k):
    assume(len(kp) >= 1)
    assume(len(imp) == len(spends))
    p = ReachPoint(imp, kp, spends, u)
    check("max_frequency", p.max_frequency == len(kp))
    check("impressions kept", eq(list(p.impressions), list(imp)))
    check("universe kept", p.universe_size == u)
    if len(spends) > 0:
        check("spends kept", eq(list(p.spends), list(spends)))
    if 1 <= k and k <= len(kp):
        check("k+ reach unchanged", p.reach(k) == kp[k - 1])
    else:
        expect_raises(ValueError, lambda: p.reach(k))
    if 1 <= k and k < len(kp):
        check("frequency k is the difference of consecutive k+ reaches", p.frequency(k) == kp[k - 1] - kp[k])
    else:
        expect_raises(ValueError, lambda: p.frequency(k))


@lemma(props=["C03"], types=dict(imp=List(Int), kp=List(Int), u=Int))
def histogram(imp, kp, u):
    assume(len(kp) >= 1)
    p = ReachPoint(imp, kp, None, u)
    f = p.frequencies
    check("one frequency per bucket below the cap", len(f) == len(kp) - 1)
    check("frequencies are differences", forall(0, len(f), lambda j: f[j] == kp[j] - kp[j + 1]))
    b = p.frequencies_with_kplus_bucket
    check("bucketed frequencies have one entry per k+ reach", len(b) == len(kp))
    check("last bucket is the last k+ reach", b[len(kp) - 1] == kp[len(kp) - 1])
    check("other buckets are the exact frequencies", forall(0, len(f), lambda j: b[j] == f[j]))
    h = p.zero_included_histogram
    check("histogram length", len(h) == len(kp) + 1)
    check("zero bucket is the unreached universe", h[0] == u - kp[0])
    check("rest of the histogram", forall(0, len(b), lambda j: h[j + 1] == b[j]))
    check_induct("suffix sums of the bucketed frequencies are the k+ reaches", 0, len(kp),
                 lambda k: total(k, len(kp), lambda j: b[j]) == kp[k], down=True)
    check("the histogram sums to the universe size", h[0] + total(0, len(kp), lambda j: b[j]) == u)


@lemma(props=["C03"], types=dict(imp=List(Int), kp=List(Int), spends=List(Real)))
def rejects(imp, kp, spends):
    assume(len(kp) >= 1)
    if len(spends) > 0 and len(imp) != len(spends):
        expect_raises(ValueError, lambda: ReachPoint(imp, kp, spends))
    p = ReachPoint(imp, kp)
    expect_raises(ValueError, lambda: p.universe_size)
    expect_raises(ValueError, lambda: p.zero_included_histogram)
    check("no spends given", p.spends is None)


@contract("models.reach_point:ReachPoint.frequencies_to_kplus_reaches", props=["C03"], types=dict(frequencies=List(Int)),
          returns=List(Int))
def frequencies_to_kplus_reaches(frequencies):
    result = body(frequencies)
    check("one k+ reach per frequency", len(result) == len(frequencies))
    check_induct("k+ reaches are suffix sums", 0, len(frequencies),
                 lambda k: result[k] == total(k, len(frequencies), lambda j: frequencies[j]), down=True)
    return result


@lemma(props=["C03"], types=dict(kp=List(Int)))
def inverse(kp):
    assume(len(kp) >= 1)
    p = ReachPoint([1], kp)
    r = ReachPoint.frequencies_to_kplus_reaches(p.frequencies_with_kplus_bucket)
    b = p.frequencies_with_kplus_bucket
    check_induct("suffix sums invert differences", 0, len(kp),
                 lambda k: total(k, len(kp), lambda j: b[j]) == kp[k], down=True)
    check("round trip length", len(r) == len(kp))
    check("round trip", forall(0, len(kp), lambda k: r[k] == kp[k]))


COUNTS = Dict(Int, Int)


@contract("models.reach_point:ReachPoint.user_counts_to_frequencies", props=["C03"],
          types=dict(counts=COUNTS, max_frequency=Int), returns=List(Int))
def user_counts_to_frequencies(counts, max_frequency):
    assume(max_frequency >= 1)
    assume(forall_keys(counts, lambda u: counts[u] >= 1))
    result = body(counts, max_frequency)
    check("length", len(result) == max_frequency)
    check("exact counts below the cap",
          forall(0, max_frequency - 1, lambda j: result[j] == count_keys(counts, lambda u: counts[u] == j + 1)))
    check("capped count",
          result[max_frequency - 1] == count_keys(counts, lambda u: counts[u] >= max_frequency))
    return result


@lemma(props=["C03"], types=dict(counts=COUNTS, max_frequency=Int))
def user_counts_to_kplus_reaches(counts, max_frequency):
    assume(max_frequency >= 1)
    assume(forall_keys(counts, lambda u: counts[u] >= 1))
    result = ReachPoint.user_counts_to_kplus_reaches(counts, max_frequency)
    check("length", len(result) == max_frequency)
    check_induct("users reached at least k times", 0, max_frequency,
                 lambda k: result[k] == count_keys(counts, lambda u: counts[u] >= k + 1), down=True)
