"""DataSet: ground-truth reach and conversions (C01, C02)."""
from pyvc_dsl import *
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet

LOG = List(Tuple(Int, Real))
PUB = Obj("data_generators.publisher_data:PublisherData", impression_log_data=LOG, name=Const("p"))


@lemma(props=["C02"], types=dict(pubs=List(PUB), imps=List(Nat), spends=List(Real), i=Nat))
def vector_conversions(pubs, imps, spends, i):
    assume(forall(0, len(pubs), lambda k: len(ghost(pubs[k], "impression_log_data")) >= 1))
    assume(len(imps) == len(pubs) and len(spends) == len(pubs))
    assume(i < len(pubs))
    d = DataSet(pubs, "d", 100)
    s = d.spend_by_impressions(imps)
    check("one spend per publisher", len(s) == len(pubs))
    check("publisher by publisher (spends)", s[i] == pubs[i].spend_by_impressions(imps[i]))
    m = d.impressions_by_spend(spends)
    check("one impression count per publisher", len(m) == len(pubs))
    check("publisher by publisher (impressions)", m[i] == pubs[i].impressions_by_spend(spends[i]))


@contract("data_generators.data_set:DataSet._counts_to_histogram", props=["C01"],
          types=dict(self=Obj("data_generators.data_set:DataSet", publisher_data_list=List(PUB), name=Const("d"), universe_size=Int),
                     counts=Dict(Int, Int), max_frequency=Int), returns=List(Int))
def counts_to_histogram(self, counts, max_frequency):
    assume(max_frequency >= 1)
    assume(forall_keys(counts, lambda u: counts[u] >= 1))
    result = body(self, counts, max_frequency)
    check("one k+ reach per frequency", len(result) == max_frequency)
    check("capped count", result[max_frequency - 1] == count_keys(counts, lambda u: counts[u] >= max_frequency))
    check_induct("users with count at least k", 0, max_frequency,
                 lambda k: result[k] == count_keys(counts, lambda u: counts[u] >= k + 1), down=True,
                 aid=lambda k: implies(k + 1 < max_frequency, lambda: result[k] - result[k + 1] == count_keys(counts, lambda u: counts[u] == k + 1)),
                 aid2=lambda k: count_keys(counts, lambda u: counts[u] >= k + 1) == count_keys(counts, lambda u: counts[u] == k + 1) + count_keys(counts, lambda u: counts[u] >= k + 2))
    return result


@lemma(props=["C01"], types=dict(pubs=List(PUB), imps=List(Nat), mf=Int, k=Int, u=Int))
def reach_by_impressions(pubs, imps, mf, k, u):
    assume(forall(0, len(pubs), lambda i: len(ghost(pubs[i], "impression_log_data")) >= 1))
    assume(mf >= 1 and 1 <= k and k <= mf)
    d = DataSet(pubs, "d", 100)
    if len(imps) != len(pubs):
        expect_raises(ValueError, lambda: d.reach_by_impressions(imps, mf))
    else:
        p = d.reach_by_impressions(imps, mf)
        srt = [sorted(ghost(x, "impression_log_data"), key=lambda y: y[1]) for x in pubs]
        check("impressions of the point", eq(list(p.impressions), list(imps)))
        check("max frequency of the point", p.max_frequency == mf)
        if len(pubs) > 0:
            check("spends of the point", forall(0, len(pubs), lambda i: p.spends[i] == pubs[i].spend_by_impressions(imps[i])))
        check("k+ reach is the number of users with at least k impressions in total",
              p.reach(k) == count_where([y[0] for x in srt for y in x], lambda v: total(0, len(pubs), lambda i:
                    count(0, min(imps[i], len(srt[i])), lambda j: srt[i][j][0] == v)) >= k))


@lemma(props=["C01"], types=dict(pubs=List(PUB), spends=List(Real), mf=Int, k=Int))
def reach_by_spend(pubs, spends, mf, k):
    assume(forall(0, len(pubs), lambda i: len(ghost(pubs[i], "impression_log_data")) >= 1))
    assume(mf >= 1 and 1 <= k and k <= mf)
    d = DataSet(pubs, "d", 100)
    if len(spends) != len(pubs):
        expect_raises(ValueError, lambda: d.reach_by_spend(spends, mf))
    else:
        p = d.reach_by_spend(spends, mf)
        logs = [ghost(x, "impression_log_data") for x in pubs]
        if len(pubs) > 0:
            check("spends of the point", eq(list(p.spends), list(spends)))
        check("max frequency of the point", p.max_frequency == mf)
        check("impressions of the point are what the spends buy",
              forall(0, len(pubs), lambda i: p.impressions[i] == count(0, len(logs[i]), lambda j: logs[i][j][1] <= spends[i])))
        check("k+ reach is the number of users with at least k affordable impressions in total",
              p.reach(k) == count_where([y[0] for x in logs for y in x], lambda v: total(0, len(pubs), lambda i:
                    count(0, len(logs[i]), lambda j: logs[i][j][0] == v and logs[i][j][1] <= spends[i])) >= k))
