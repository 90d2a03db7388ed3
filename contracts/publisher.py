"""PublisherData: conversions between spend and impressions, user counts (C01, C02)."""
from pyvc_dsl import *
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

LOG = List(Tuple(Int, Real))
PUB = Obj("data_generators.publisher_data:PublisherData", impression_log_data=LOG, name=Const("p"))


@contract("data_generators.publisher_data:PublisherData.impressions_by_spend", props=["C01", "C02"],
          types=dict(self=PUB, spend=Real), returns=Int)
def impressions_by_spend(self, spend):
    log = ghost(self, "impression_log_data")
    assume(len(log) >= 1)
    result = body(self, spend)
    check("impressions bought = number of events costing at most the spend",
          result == count(0, len(log), lambda j: log[j][1] <= spend))
    check("0 <= impressions <= log length", 0 <= result and result <= len(log))
    return result


@lemma(props=["C02"], types=dict(log=LOG, n=Nat, m=Nat))
def spend_by_impressions(log, n, m):
    assume(len(log) >= 1)
    p = PublisherData(log, "p")
    s = p.spend_by_impressions(n)
    if n == 0:
        check("no impressions cost nothing", s == 0)
    else:
        check("the spend is the cost of some event", exists(0, len(log), lambda j: log[j][1] == s))
        check("n-th cheapest: fewer than n events are strictly cheaper",
              count(0, len(log), lambda j: log[j][1] < s) < n)
        check("n-th cheapest: at least min(n, length) events cost at most that",
              count(0, len(log), lambda j: log[j][1] <= s) >= min(n, len(log)))
        check("beyond the end it is the last event's cost",
              implies(n >= len(log), lambda: forall(0, len(log), lambda j: log[j][1] <= s)))
        r = p.impressions_by_spend(s)
        check("buying the spend of n impressions gives at least n", r >= min(n, len(log)))
    if 1 <= m <= n:
        check("spend is monotone in impressions", p.spend_by_impressions(m) <= s)


@lemma(props=["C02"], types=dict(log=LOG, a=Real, b=Real))
def impressions_monotone(log, a, b):
    assume(len(log) >= 1)
    p = PublisherData(log, "p")
    ia = p.impressions_by_spend(a)
    ib = p.impressions_by_spend(b)
    check("impressions are monotone in spend", implies(a <= b, ia <= ib))


@lemma(props=["C02"], types=dict(log=LOG))
def totals(log):
    assume(len(log) >= 1)
    p = PublisherData(log, "p")
    check("max_impressions is the log length", p.max_impressions == len(log))
    ms = p.max_spend
    check("max_spend bounds every event", forall(0, len(log), lambda j: log[j][1] <= ms))
    check("max_spend is attained", exists(0, len(log), lambda j: log[j][1] == ms))
    check("max_reach is the number of distinct users", p.max_reach == len(set([u for u, _ in log])))
    check("name kept", p.name == "p")
    check("spending the maximum buys everything", p.impressions_by_spend(ms) == len(log))


@contract("data_generators.publisher_data:PublisherData.user_counts_by_impressions", props=["C01"],
          types=dict(self=PUB, impressions=Nat), returns=Dict(Int, Int))
def user_counts_by_impressions(self, impressions):
    log = ghost(self, "impression_log_data")
    assume(len(log) >= 1)
    assume(impressions >= 0)
    srt = sorted(log, key=lambda x: x[1])
    m = min(impressions, len(log))
    result = body(self, impressions)
    check("a user's count is its number of events among the n cheapest",
          forall_int(users_of(log), lambda u: result.get(u, 0) == count(0, m, lambda j: srt[j][0] == u)))
    check("exactly the users with an event are listed",
          forall_int(users_of(log), lambda u: iff(u in result, result.get(u, 0) >= 1)))
    check("every event is counted once", sum(result.values()) == m)
    return result


@contract("data_generators.publisher_data:PublisherData.user_counts_by_spend", props=["C01"],
          types=dict(self=PUB, spend=Real), returns=Dict(Int, Int))
def user_counts_by_spend(self, spend):
    log = ghost(self, "impression_log_data")
    assume(len(log) >= 1)
    result = body(self, spend)
    check("a user's count is its number of events costing at most s",
          forall_int(users_of(log), lambda u: result.get(u, 0) == count(0, len(log), lambda j: log[j][0] == u and log[j][1] <= spend)))
    check("exactly the users with an event are listed",
          forall_int(users_of(log), lambda u: iff(u in result, result.get(u, 0) >= 1)))
    check("every event is counted once", sum(result.values()) == count(0, len(log), lambda j: log[j][1] <= spend))
    return result


def users_of(log):
    return [u for u, _ in log]
