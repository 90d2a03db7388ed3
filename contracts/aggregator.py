"""Error metrics of compared reach points (C18)."""
from pyvc_dsl import *
import math
import numpy as np
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.driver import test_point_aggregator as AGG
from wfa_planning_evaluation_framework.driver.test_point_aggregator import AGGREGATORS, aggregate, aggregate_on_exception, _mean_abs_relative_error, _shuffle_distance

POINT = Obj("models.reach_point:ReachPoint", impressions=List(Int), kplus_reaches=List(Real))


def comparable(x, y, k):
    assume(len(x) >= 1 and len(x) == len(y))
    assume(forall(0, len(x), lambda i: x[i].max_frequency >= k))
    assume(forall(0, len(y), lambda i: y[i].max_frequency >= k))
    assume(forall(0, len(x), lambda i: x[i].reach(k) > 0))


def mean(n, f):
    return total(0, n, f) / n


@lemma(props=["C18"], types=dict(x=List(POINT), y=List(POINT)), concrete=False)
def plain_error_metrics(x, y):
    comparable(x, y, 1)
    n = len(x)
    err = lambda i: x[i].reach(1) - y[i].reach(1)
    check("npoints", AGGREGATORS["npoints"](x, y) == n)
    check("mean_error", eq(AGGREGATORS["mean_error"](x, y), mean(n, err)))
    check("mean_abs_error", eq(AGGREGATORS["mean_abs_error"](x, y), mean(n, lambda i: abs(err(i)))))
    check("mean_squared_error", eq(AGGREGATORS["mean_squared_error"](x, y), mean(n, lambda i: err(i) ** 2)))


@lemma(props=["C18"], types=dict(x=List(POINT), y=List(POINT)), concrete=False)
def relative_error_metrics(x, y):
    comparable(x, y, 1)
    n = len(x)
    err = lambda i: x[i].reach(1) - y[i].reach(1)
    check("mean_abs_relative_error", eq(AGGREGATORS["mean_abs_relative_error"](x, y), mean(n, lambda i: abs(err(i)) / x[i].reach(1))))
    check("mean_squared_relative_error", eq(AGGREGATORS["mean_squared_relative_error"](x, y), mean(n, lambda i: err(i) ** 2 / x[i].reach(1) ** 2)))


@lemma(props=["C18"], types=dict(x=List(POINT), y=List(POINT), k=Int), concrete=False)
def relative_error_at_frequency(x, y, k):
    assume(k >= 1)
    comparable(x, y, k)
    check("k+ reach relative error", eq(_mean_abs_relative_error(x, y, k), mean(len(x), lambda i: abs(x[i].reach(k) - y[i].reach(k)) / x[i].reach(k))))


def relative_error_fixed(x, y, k, key):
    comparable(x, y, k)
    check(key, eq(AGGREGATORS[key](x, y), mean(len(x), lambda i: abs(x[i].reach(k) - y[i].reach(k)) / x[i].reach(k))))


@lemma(props=["C18"], types=dict(x=List(POINT), y=List(POINT)), concrete=False)
def relative_error_2_to_5(x, y):
    relative_error_fixed(x, y, 2, "mare_freq_at_least_2")
    relative_error_fixed(x, y, 3, "mare_freq_at_least_3")
    relative_error_fixed(x, y, 4, "mare_freq_at_least_4")
    relative_error_fixed(x, y, 5, "mare_freq_at_least_5")


@lemma(props=["C18"], types=dict(x=List(POINT), y=List(POINT)), concrete=False)
def relative_error_6_to_9(x, y):
    relative_error_fixed(x, y, 6, "mare_freq_at_least_6")
    relative_error_fixed(x, y, 7, "mare_freq_at_least_7")
    relative_error_fixed(x, y, 8, "mare_freq_at_least_8")
    relative_error_fixed(x, y, 9, "mare_freq_at_least_9")


@lemma(props=["C18"], types=dict(x=POINT, y=POINT), concrete=False)
def shuffle_distance(x, y):
    assume(x.max_frequency > 5 and y.max_frequency > 5)
    assume(forall(1, 6, lambda k: x.frequency(k) >= 0 and y.frequency(k) >= 0))
    d = _shuffle_distance(x, y)
    a = total(1, 6, lambda k: x.frequency(k))
    b = total(1, 6, lambda k: y.frequency(k))
    check("within [0, 1]", 0 <= d and d <= 1)
    check("empty histogram", implies(a == 0 or b == 0, d == 0.5))
    check("half the total variation of the first five frequencies", implies(a > 0 and b > 0, lambda: eq(d, 0.5 * total(1, 6, lambda k: abs(x.frequency(k) / a - y.frequency(k) / b)))))


@lemma(props=["C18"], types=dict(x=POINT, y=POINT), concrete=False)
def shuffle_distance_undefined(x, y):
    assume(x.max_frequency <= 5 or y.max_frequency <= 5)
    check("too few frequencies", _shuffle_distance(x, y) == 1)


# ------------------------------------------------------------------ run time
def gen_point(g, n, zero=True):
    v, out = g.rng.choice([0, 3, 10, 1000, 123456]) if zero else g.rng.choice([1, 3, 10, 1000, 123456]), []
    for _ in range(n):
        out.append(v)
        v = g.rng.choice([v, v, max(0, v - g.rng.randint(0, 3)), v // 2])
    return ReachPoint([100], out)


def gen_truth(g):
    return [gen_point(g, g.rng.choice([1, 4, 5, 6, 7, 9, 10, 12]), False) for _ in range(g.rng.randint(1, 7))] if g.rng.random() < 0.4 else [
        gen_point(g, 10, False) for _ in range(g.rng.randint(1, 7))]


def gen_modelled(g):
    c = g.rng.random()
    if c < 0.15:
        return list(g.args["x"])
    return [gen_point(g, p.max_frequency if c < 0.8 else g.rng.choice([1, 5, 6, 8, 10])) for p in g.args["x"]]


def definition_of_shuffle(p, q):
    if p.max_frequency <= 5 or q.max_frequency <= 5:
        return 1.0
    a, b = [p.reach(k) - p.reach(k + 1) for k in range(1, 6)], [q.reach(k) - q.reach(k + 1) for k in range(1, 6)]
    if sum(a) == 0 or sum(b) == 0:
        return 0.5
    return 0.5 * sum(abs(u / sum(a) - v / sum(b)) for u, v in zip(a, b))


def quantile(v, q):
    v = sorted(v)
    h = (len(v) - 1) * q
    i = int(math.floor(h))
    return v[i] + (h - i) * (v[min(i + 1, len(v) - 1)] - v[i])


def variance(v):
    m = sum(v) / len(v)
    return sum((a - m) ** 2 for a in v) / len(v)


def expected_metrics(x, y):
    n = len(x)
    e = [a.reach(1) - b.reach(1) for a, b in zip(x, y)]
    r = [d / a.reach(1) for d, a in zip(e, x)]
    av = lambda v: sum(v) / n
    m = {"npoints": n, "mean_error": av(e), "mean_abs_error": av([abs(v) for v in e]), "mean_squared_error": av([v * v for v in e]),
         "mean_abs_relative_error": av([abs(v) for v in r]), "mean_squared_relative_error": av([v * v for v in r]),
         "var_error": variance(e), "var_relative_error": variance(r)}
    for k in range(2, 10):
        ok = all(p.max_frequency >= k for p in x + y) and all(p.reach(k) > 0 for p in x)
        if ok:
            m["mare_freq_at_least_%d" % k] = av([abs(a.reach(k) - b.reach(k)) / a.reach(k) for a, b in zip(x, y)])
        elif any(p.max_frequency < k for p in x + y):
            m["mare_freq_at_least_%d" % k] = float("nan")
    for q in range(10, 100, 10):
        m["relative_error_q%d" % q] = quantile([abs(v) for v in r], q / 100)
    s = [definition_of_shuffle(a, b) for a, b in zip(x, y)]
    m["mean_shuffle_distance"] = av(s)
    m["mean_squared_shuffle_distance"] = av([v * v for v in s])
    m["var_shuffle_distance"] = variance(s)
    return m


@lemma(props=["C18"], types=dict(x=List(POINT), y=List(POINT)), symbolic=False, gen=dict(x=gen_truth, y=gen_modelled))
def reported_metrics(x, y):
    import warnings
    warnings.simplefilter("ignore")
    df = aggregate(x, y)
    check("one row", len(df) == 1)
    check("success is reported", df["model_succeeded"][0] == 1 and df["model_exception"][0] == "None")
    for key, v in expected_metrics(x, y).items():
        check(key + " is its definition", close(float(df[key][0]), v) or (v != v and df[key][0] != df[key][0]))
    for a, b in zip(x, y):
        check("shuffle distance in [0, 1]", -1e-12 <= _shuffle_distance(a, b) <= 1 + 1e-12)
        check("shuffle distance symmetric", eq(_shuffle_distance(a, b), _shuffle_distance(b, a)))
    same = aggregate(x, x)
    for key in expected_metrics(x, x):
        if key.startswith(("mean_error", "mean_abs", "mean_squared_e", "mean_squared_r", "var_error", "var_rel", "relative")):
            check("no error against itself: " + key, same[key][0] == 0)
    check("truth and model not modified", all(isinstance(p, ReachPoint) for p in x + y))


@lemma(props=["C18"], types=dict(msg=Str, x=List(POINT)), symbolic=False, gen=dict(msg=lambda g: g.rng.choice(["", "None", "boom", "a,b\n"]), x=gen_truth))
def failed_model(msg, x):
    df = aggregate_on_exception(msg)
    check("one row", len(df) == 1)
    check("failure is reported with its message", df["model_succeeded"][0] == 0 and df["model_exception"][0] == msg)
    import warnings
    warnings.simplefilter("ignore")
    check("same columns in the same order", list(df.columns) == list(aggregate(x, x).columns))
    check("metrics missing", all(df[c][0] != df[c][0] for c in df.columns if c not in ("model_succeeded", "model_exception")))
