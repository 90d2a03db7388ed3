"""Experiment enumeration and result reporting (C19)."""
from pyvc_dsl import *
import copy
import os
import numpy as np
import pandas as pd
import functools
# pandas' C parser crashes the interpreter (PyPy) when it is freed; the Python parser reads the same values
pd.read_csv = functools.partial(pd.read_csv, engine="python")
from persistence import Scratch, contents
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver import modeling_strategy_descriptor as MSD
from wfa_planning_evaluation_framework.driver.experiment import Experiment
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor
from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters


class KnownSurface(object):
    """a reach surface whose predictions are known"""

    def __init__(self, factor):
        self.factor = factor
        self._data = [ReachPoint([1], [3, 2, 0])]

    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([1 for _ in spends], [self.factor * (1 + sum(spends)) / (k + 1) for k in range(max_frequency)], list(spends))


class KnownStrategy(object):
    """a modeling strategy that spends a known part of its budget and then succeeds or fails"""
    fits = 0

    def __init__(self, single, single_kwargs, multi, multi_kwargs, factor=1.0, part=1.0, fail=False):
        self.factor, self.part, self.fail = factor, part, fail

    def fit(self, halo, params, budget):
        KnownStrategy.fits += 1
        if self.part:
            halo.simulated_reach_by_spend(halo.campaign_spends, PrivacyBudget(budget.epsilon * self.part, budget.delta * self.part), 0.25, 2)
        if self.fail:
            raise RuntimeError("no model, today")
        return KnownSurface(self.factor)


MSD.MODELING_STRATEGIES["known"] = KnownStrategy


def gen_descriptor(g):
    r = g.rng
    return dict(
        strategy=r.choice(["known"]), skw=dict([("factor", r.choice([1.0, 2.5, 0.5])), ("part", r.choice([0, 0.5, 1.0])), ("fail", r.random() < 0.3)][:r.randint(0, 3)]),
        single=r.choice(["goerg", "gamma_poisson"]), kw1=r.choice([{}, {"a": 1}, {"a": 2}, {"a": 1, "b": "x"}]),
        multi=r.choice(["pairwise_union", "none"]), kw2=r.choice([{}, {"c": 0.5}]),
        spends=[r.choice([0.25, 0.5, 1.0]) for _ in range(2)], decay=r.choice([10, 12]), sketch=r.choice([1000, 2000]),
        eps=r.choice([0.5, 1.0, 4.0]), delta=r.choice([0.0, 1e-9, 0.01]), replica=r.choice([1, 2, 11]), freq=r.choice([1, 2, 7]),
        points=r.choice(["grid"]), pkw=dict(grid_size=r.choice([1, 2])))


def build(d):
    return TrialDescriptor(
        ModelingStrategyDescriptor(d["strategy"], dict(d["skw"]), d["single"], dict(d["kw1"]), d["multi"], dict(d["kw2"])),
        SystemParameters(list(d["spends"]), LiquidLegionsParameters(d["decay"], d["sketch"], 1), np.random.default_rng(1)),
        ExperimentParameters(PrivacyBudget(d["eps"], d["delta"]), d["replica"], d["freq"], d["points"], dict(d["pkw"])))


FIELDS = ["strategy", "skw", "single", "kw1", "multi", "kw2", "spends", "decay", "sketch", "eps", "delta", "replica", "freq", "points", "pkw"]
KW = [{}, {"k": 0}, {"k": None}, {"k": False}, {"k": 0.0}, {"k": 1}, {"k": True}, {"k": 1e-07}, {"k": 1e-08}, {"m": 0}, {"k": 0, "m": 0}, {"k": [1, 2]}, {"k": [1, 3]}]


def gen_other(g):
    """another value of the field: from the list, or close to the value it has"""
    r, f, d = g.rng, g.args["field"], g.args["d"]
    v = d[f]
    if r.random() < 0.5:
        return r.choice(OTHER[f])
    if isinstance(v, float):
        return float(r.choice([v * (1 + 2.0 ** -r.randint(1, 52)), v + 1, v * 10, v / 10, r.random()]))
    if isinstance(v, int):
        return r.choice([v + 1, v * 10, v + 10 ** r.randint(1, 9), r.randrange(1, 10 ** 6)])
    if isinstance(v, list):
        i = r.randrange(len(v))
        return r.choice([v + [v[i]], v[:i] + v[i + 1:], v[:i] + [v[i] * (1 + 2.0 ** -r.randint(1, 52))] + v[i + 1:], v[::-1]])
    if isinstance(v, dict):
        return r.choice(KW)
    return r.choice(OTHER[f])


OTHER = dict(strategy=["known", "m3strategy", "single_publisher"], skw=[{}, {"factor": 1.0}, {"factor": 1.0, "part": 0.5}, {"part": 0.5}], single=["goerg", "gamma_poisson", "kinflated_gamma_poisson"],
             kw1=[{}, {"a": 1}, {"a": 2}, {"b": 1}], multi=["pairwise_union", "restricted_pairwise_union", "none"], kw2=[{}, {"c": 0.5}, {"c": 0.25}],
             spends=[[0.25, 0.5], [0.5, 0.25], [0.25], [0.1 + 0.2, 0.5], [0.3, 0.5], [0.25, 0.5, 1.0]], decay=[10, 12, 1], sketch=[1000, 2000, 10000], eps=[0.5, 1.0, 1.0000001, 10.0], delta=[0.0, 1e-9, 1e-5],
             replica=[1, 2, 11], freq=[1, 2, 11], points=["grid", "latin_hypercube", "uniformly_random"], pkw=[{}, {"npoints": 100}, {"npoints": 200}, {"npoints": 100, "npublishers": 3}])


@lemma(props=["C19"], types=dict(field=Str, d=Int, value=Int), symbolic=False,
       gen=dict(field=lambda g: g.rng.choice(FIELDS), d=lambda g: dict(gen_descriptor(g), **({g.args["field"]: g.rng.choice(KW)} if g.args["field"] in ("skw", "kw1", "kw2", "pkw") and g.rng.random() < 0.5 else {})), value=gen_other))
def result_files_are_distinct(field, d, value):
    assume(d[field] != value)
    e = dict(d)
    e[field] = value
    a, b = build(d), build(e)
    check("different parameters, different description", str(a) != str(b))
    p, q = ExperimentalTrial("/x", None, "s", a), ExperimentalTrial("/x", None, "s", b)
    check("different parameters, different result file", p._compute_trial_results_path() != q._compute_trial_results_path())
    r = ExperimentalTrial("/x", None, "s1", a)
    check("different data set, different result file", p._compute_trial_results_path() != r._compute_trial_results_path())
    check("same parameters, same result file", p._compute_trial_results_path() == ExperimentalTrial("/x", None, "s", build(d))._compute_trial_results_path())
    check("one directory per experiment", p._compute_trial_results_path() != ExperimentalTrial("/y", None, "s", a)._compute_trial_results_path())


def a_data_set(name, pubs, seed):
    r = np.random.default_rng(seed)
    return DataSet([PublisherData([(int(r.integers(0, 12)), float(j + 1)) for j in range(15 + 3 * i)], "p%d" % i) for i in range(pubs)], name)


@lemma(props=["C19"], types=dict(d=Int, pubs=Int, gen=Bool), symbolic=False,
       gen=dict(d=gen_descriptor, pubs=lambda g: g.rng.randint(1, 4), gen=lambda g: g.rng.random() < 0.5))
def descriptors_adapt_to_the_data_set(d, pubs, gen):
    data = a_data_set("s", pubs, 1)
    t = build(dict(d, pkw={"npoints": 150, "npublishers": 1} if gen else {"npoints": 150}))
    if gen:
        t = t._replace(system_params=t.system_params._replace(campaign_spend_fractions_generator=lambda ds: [0.125] * ds.publisher_count))
    before = (str(t), copy.deepcopy(t.modeling_strategy), list(t.system_params.campaign_spend_fractions), t.system_params.liquid_legions, dict(t.experiment_params.test_point_strategy_kwargs))
    u = t.update_from_dataset(data)
    check("originals unchanged", (str(t), t.modeling_strategy, list(t.system_params.campaign_spend_fractions), t.system_params.liquid_legions,
                                  dict(t.experiment_params.test_point_strategy_kwargs)) == before)
    check("modeling strategy kept", u.modeling_strategy == t.modeling_strategy)
    check("system parameters kept", u.system_params.liquid_legions == t.system_params.liquid_legions and u.system_params.generator is t.system_params.generator)
    check("spend fractions", list(u.system_params.campaign_spend_fractions) == ([0.125] * pubs if gen else list(d["spends"])))
    p, q = u.experiment_params, t.experiment_params
    check("experiment parameters kept", (p.privacy_budget, p.replica_id, p.max_frequency, p.test_point_strategy) == (q.privacy_budget, q.replica_id, q.max_frequency, q.test_point_strategy))
    check("number of publishers filled in", p.test_point_strategy_kwargs == ({"npoints": 150, "npublishers": pubs} if gen else {"npoints": 150}))
    u.modeling_strategy.strategy_kwargs["x"] = 1
    u.system_params.campaign_spend_fractions.append(9)
    p.test_point_strategy_kwargs["y"] = 1
    check("changing the adapted descriptor leaves the original", (str(t), t.modeling_strategy, list(t.system_params.campaign_spend_fractions), t.system_params.liquid_legions,
                                                                  dict(t.experiment_params.test_point_strategy_kwargs)) == before)


class DesignOf(object):
    """a data design that holds its data sets in memory"""

    def __init__(self, sets):
        self.sets = sets
        self.names = [s.name for s in sets]
        self.count = len(sets)

    def by_name(self, name):
        return [s for s in self.sets if s.name == name][0]


@lemma(props=["C19"], types=dict(ds=Int, names=Int), symbolic=False,
       gen=dict(ds=lambda g: [g.rng.choice([gen_descriptor(g), None]) for _ in range(g.rng.randint(0, 5))], names=lambda g: g.rng.sample(["a", "b", "a::b", "c", "b::c"], g.rng.randint(0, 3))))
def enumeration(ds, names):
    ds = [d for i, d in enumerate(ds) if d is not None or (i > 0 and ds[i - 1] is not None)]
    full = []
    for d in ds:
        full.append(full[-1] if d is None else d)
    descs = [build(d) for d in full]
    before = [str(t) for t in descs]
    design = DesignOf([a_data_set(n, 2, i) for i, n in enumerate(names)])
    x = ExperimentalDesign("/x", design, descs, analysis_type="kind")
    trials = x.generate_trials()
    want = []
    for n in names:
        for t in before:
            if (n, t) not in want:
                want.append((n, t))
    check("every combination exactly once, in order", [(t._data_set_name, str(t._trial_descriptor)) for t in trials] == want)
    check("in the experiment's directory, of the experiment's design", all(t._experiment_dir == "/x" and t._data_design is design and t._analysis_type == "kind" for t in trials))
    check("descriptors unchanged", [str(t) for t in descs] == before)
    for n in names:
        e = Experiment("/x", design, n, descs).generate_trials()
        check("one trial per descriptor", [(t._data_set_name, str(t._trial_descriptor)) for t in e] == [(n, t) for t in before])


def nan_equal(a, b):
    a, b = a.reset_index(drop=True), b.reset_index(drop=True)
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    for c in a.columns:
        for u, v in zip(a[c], b[c]):
            if isinstance(u, str) or isinstance(v, str):
                if u != v and not (u == "" and v != v) and not (v == "" and u != u) and not ("None" in (u, v)):
                    return False
            elif not (u == v or (u != u and v != v) or abs(u - v) <= 1e-9 * max(1, abs(u))):
                return False
    return True


def expected_used(data, t):
    kw = t.modeling_strategy.strategy_kwargs
    part = kw.get("part", 1.0)
    return t.experiment_params.privacy_budget.epsilon * part, t.experiment_params.privacy_budget.delta * part


def check_row(row, name, data, t):
    get = lambda c: row[c].iloc[0]
    check("one row per trial", len(row) == 1)
    check("data set and trial reported", get("dataset") == name and get("trial") == str(t))
    check("parameters reported", get("replica_id") == t.experiment_params.replica_id and get("max_frequency") == t.experiment_params.max_frequency
          and get("single_pub_model") == t.modeling_strategy.single_pub_model and get("multi_pub_model") == t.modeling_strategy.multi_pub_model and get("strategy") == t.modeling_strategy.strategy
          and get("liquid_legions_sketch_size") == t.system_params.liquid_legions.sketch_size and get("liquid_legions_decay_rate") == t.system_params.liquid_legions.decay_rate)
    check("data set reported", get("maximum_reach") == data.maximum_reach and get("ncampaigns") == data.publisher_count and get("largest_pub_reach") == max(p.max_reach for p in data._data))
    check("average spend fraction", close(get("average_spend_fraction"), sum(t.system_params.campaign_spend_fractions) / len(t.system_params.campaign_spend_fractions)))
    check("granted budget reported", get("privacy_budget_epsilon") == t.experiment_params.privacy_budget.epsilon and get("privacy_budget_delta") == t.experiment_params.privacy_budget.delta)
    eps, delta = expected_used(data, t)
    check("budget actually used reported", close(get("privacy_used_epsilon"), eps) and close(get("privacy_used_delta"), delta))
    check("mechanisms actually used reported", (get("privacy_mechanisms") == "Discrete Gaussian") if t.modeling_strategy.strategy_kwargs.get("part", 1.0) else get("privacy_mechanisms") in ("",) or get("privacy_mechanisms") != get("privacy_mechanisms"))
    if t.modeling_strategy.strategy_kwargs.get("fail"):
        check("failure reported", get("model_succeeded") == 0 and "no model, today" in get("model_exception"))
        check("no metrics for a failed model", get("mean_abs_error") != get("mean_abs_error"))
    else:
        check("success reported", get("model_succeeded") == 1)
        k = t.experiment_params.max_frequency
        pts = list(t.experiment_params.generate_test_points(data, np.random.default_rng(1)))
        s = KnownSurface(t.modeling_strategy.strategy_kwargs.get("factor", 1.0))
        m = aggregate([data.reach_by_spend(list(p), k) for p in pts], [s.by_spend(p, k) for p in pts])
        for c in ("npoints", "mean_error", "mean_abs_error", "mean_squared_error", "mean_shuffle_distance"):
            check("metrics of this trial: " + c, close(get(c), m[c].iloc[0]))


@lemma(props=["C19"], types=dict(d=Int, pubs=Int, kind=Str, seed=Int), symbolic=False, weight=4,
       gen=dict(d=gen_descriptor, pubs=lambda g: g.rng.randint(1, 3), kind=lambda g: g.rng.choice(["", "", "single_pub"]), seed=lambda g: g.rng.randrange(1000)))
def trial_results(d, pubs, kind, seed):
    import warnings
    warnings.simplefilter("ignore")
    pubs = 1 if kind else pubs
    data = a_data_set("s", pubs, seed)
    t = build(dict(d, spends=[0.5, 1.0, 0.25][:pubs]))
    with Scratch() as tmp:
        x = ExperimentalTrial(os.path.join(tmp, "exp", "inter"), DesignOf([data]), "s", t, analysis_type=kind)
        KnownStrategy.fits = 0
        row = x.evaluate(seed)
        check_row(row, "s", data, t)
        check("fitted once", KnownStrategy.fits == 1)
        check("stored where it is looked up", os.path.isfile(x._compute_trial_results_path()))
        if kind:
            cols = [c for c in row.columns if c.startswith("relative_error_at_")]
            check("one column per fraction of the campaign", len(cols) == 30 and cols == ["relative_error_at_%03d" % (10 * i) for i in range(1, 31)])
            if not d["skw"].get("fail"):
                spend0 = 0.5 * data._data[0].max_spend
                s = KnownSurface(t.modeling_strategy.strategy_kwargs.get("factor", 1.0))
                for i in (1, 7, 10, 23, 30):
                    true, fit = data.reach_by_spend([spend0 * i * 0.1]).reach(), s.by_spend([spend0 * i * 0.1]).reach()
                    v = row["relative_error_at_%03d" % (10 * i)].iloc[0]
                    check("relative error at a fraction", v != v if true == 0 else close(v, abs(true - fit) / true))
            else:
                check("missing for a failed model", all(row[c].iloc[0] != row[c].iloc[0] for c in cols))
        before = contents(tmp)
        again = x.evaluate(seed)
        check("re-evaluating returns the stored result", nan_equal(row, again) and KnownStrategy.fits == 1)
        check("and stores nothing new", contents(tmp) == before)
        other = ExperimentalTrial(os.path.join(tmp, "exp", "inter"), DesignOf([data]), "s", t, analysis_type=kind).evaluate(seed + 1)
        check("also through another trial object of the same combination", nan_equal(row, other) and KnownStrategy.fits == 1)
        with open(x._compute_trial_results_path(), "w") as f:
            f.write("")
        check("an unreadable stored result is recomputed", nan_equal(x.evaluate(seed), row) and KnownStrategy.fits == 2)


@lemma(props=["C19"], types=dict(ds=Int, sets=Int, beam=Bool, seed=Int), symbolic=False, weight=4,
       gen=dict(ds=lambda g: [gen_descriptor(g) for _ in range(g.rng.randint(1, 3))], sets=lambda g: g.rng.randint(1, 2), beam=lambda g: g.rng.random() < 0.4, seed=lambda g: g.rng.randrange(1000)))
def design_results(ds, sets, beam, seed):
    import warnings
    from apache_beam.options.pipeline_options import PipelineOptions
    warnings.simplefilter("ignore")
    data = [a_data_set("s%d" % i, 2, seed + i) for i in range(sets)]
    descs = [build(d) for d in ds] + [build(ds[0])]
    with Scratch() as tmp:
        x = ExperimentalDesign(os.path.join(tmp, "exp", "inter"), DesignOf(data), descs, seed)
        r = x.load(True, PipelineOptions(temp_location=tmp)) if beam else x.load()
        want = []
        for s in data:
            for t in descs:
                if (s, str(t)) not in [(u, str(v)) for u, v in want]:
                    want.append((s, t))
        check("one result row per combination", len(r) == len(want))
        check("in order, none mixed", [(r["dataset"].iloc[i], r["trial"].iloc[i]) for i in range(len(r))] == [(s.name, str(t)) for s, t in want])
        for i, (s, t) in enumerate(want):
            check_row(r.iloc[i:i + 1], s.name, s, t)


@lemma(props=["C19"], types=dict(which=Int, kw=Int), symbolic=False, gen=dict(which=lambda g: g.rng.randrange(18), kw=lambda g: g.rng.choice([{}, {"a": 1}])))
def strategies_by_name(which, kw):
    from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
    from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
    from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
    from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
    from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import RestrictedPairwiseUnionReachSurface
    from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
    from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy
    s = [("goerg", GoergModel), ("gamma_poisson", GammaPoissonModel), ("kinflated_gamma_poisson", KInflatedGammaPoissonModel)][which % 3]
    m = [("pairwise_union", PairwiseUnionReachSurface), ("restricted_pairwise_union", RestrictedPairwiseUnionReachSurface), ("none", None)][which // 3 % 3]
    st = [("m3strategy", M3Strategy), ("single_publisher", SinglePublisherStrategy)][which // 9]
    x = ModelingStrategyDescriptor(st[0], {}, s[0], dict(kw), m[0], {"b": 2}).instantiate_strategy()
    check("the models named", type(x) is st[1] and x._single_pub_model is s[1] and x._multi_pub_model is m[1] and x._single_pub_model_kwargs == kw and x._multi_pub_model_kwargs == {"b": 2})
    if which // 9 == 0:
        y = ModelingStrategyDescriptor("m3strategy", {"use_ground_truth_for_reach_curves": True}, s[0], {}, m[0], {}).instantiate_strategy()
        check("strategy options", y._use_ground_truth_for_reach_curves is True and x._use_ground_truth_for_reach_curves is False)


# ------------------------------------------------------------------ proved
class AnyDescriptor(object):
    """a trial descriptor: what it becomes for a data set is a function of both"""

    def __init__(self, key):
        self.key = key

    def update_from_dataset(self, dataset):
        return (self.key, dataset)


class AnyDesign(object):
    def __init__(self, names):
        self.names = names

    def by_name(self, name):
        return name + "/data"


@lemma(props=["C19"], types=dict(keys=List(Int), name=Str, directory=Str, kind=Str))
def one_trial_per_descriptor(keys, name, directory, kind):
    descs = [AnyDescriptor(k) for k in keys]
    design = AnyDesign([name])
    r = Experiment(directory, design, name, descs, kind).generate_trials()
    check("one trial per descriptor", len(r) == len(keys))
    check("in order, adapted to the data set", forall(0, len(keys), lambda i: r[i]._trial_descriptor[0] == keys[i] and r[i]._trial_descriptor[1] == name + "/data"))
    check("of this data set, directory and kind", forall(0, len(keys), lambda i: r[i]._data_set_name == name and r[i]._experiment_dir == directory and r[i]._analysis_type == kind))
    check("descriptors unchanged", len(descs) == len(keys) and forall(0, len(keys), lambda i: descs[i].key == keys[i]))


class AnyDataSet(object):
    def __init__(self, n):
        self.publisher_count = n


@lemma(props=["C19"], types=dict(eps=Real, delta=Real, replica=Int, freq=Int, points=Str, kw=Dict(Str, Int), n=Int))
def experiment_parameters_adapt(eps, delta, replica, freq, points, kw, n):
    p = ExperimentParameters(PrivacyBudget(eps, delta), replica, freq, points, kw)
    had = "npublishers" in kw
    q = p.update_from_dataset(AnyDataSet(n))
    check("budget and parameters kept", q.privacy_budget.epsilon == eps and q.privacy_budget.delta == delta and q.replica_id == replica and q.max_frequency == freq and q.test_point_strategy == points)
    check("same options", forall_keys(kw, lambda k: k in q.test_point_strategy_kwargs) and forall_keys(q.test_point_strategy_kwargs, lambda k: k in kw))
    check("the number of publishers is filled in", implies(had, lambda: q.test_point_strategy_kwargs["npublishers"] == n))
    check("other options kept", forall_keys(kw, lambda k: k == "npublishers" or q.test_point_strategy_kwargs[k] == kw[k]))


@lemma(props=["C19"], types=dict(spends=List(Real), decay=Int, sketch=Int, seed=Int, f=Fun(Int, Real), n=Int, generated=Bool))
def system_parameters_adapt(spends, decay, sketch, seed, f, n, generated):
    assume(n >= 0)
    old = list(spends)
    p = SystemParameters(spends, LiquidLegionsParameters(decay, sketch, seed), None, (lambda ds: [f(i) for i in range(ds.publisher_count)]) if generated else None)
    q = p.update_from_dataset(AnyDataSet(n))
    check("sketch parameters kept", q.liquid_legions.decay_rate == decay and q.liquid_legions.sketch_size == sketch and q.liquid_legions.random_seed == seed)
    s = q.campaign_spend_fractions
    if generated:
        check("spend fractions generated for the data set", len(s) == n and forall(0, n, lambda i: s[i] == f(i)))
    else:
        check("spend fractions kept", len(s) == len(old) and forall(0, len(old), lambda i: s[i] == old[i]))
        s.append(2.0)
        check("the original keeps its own list", len(p.campaign_spend_fractions) == len(old) and forall(0, len(old), lambda i: p.campaign_spend_fractions[i] == old[i]))


class AnyTrial(object):
    def __init__(self, name, descriptor, position):
        self._data_set_name, self._trial_descriptor, self.position = name, descriptor, position


@lemma(props=["C19"], types=dict(names=List(Str), descriptors=List(Str)))
def duplicates_removed(names, descriptors):
    assume(len(names) == len(descriptors))
    n = len(names)
    trials = [AnyTrial(names[i], descriptors[i], i) for i in range(n)]
    r = ExperimentalDesign("e", None, [])._remove_duplicates(trials)
    key = lambda i: f"{names[i]}::{descriptors[i]}"
    check("only given trials", forall(0, len(r), lambda k: 0 <= r[k].position and r[k].position < n and r[k]._data_set_name == names[r[k].position] and r[k]._trial_descriptor == descriptors[r[k].position]))
    check("the first of every name", forall(0, len(r), lambda k: forall(0, n, lambda i: i >= r[k].position or key(i) != key(r[k].position))))
    check("order kept", forall(0, len(r), lambda k: forall(0, k, lambda l: r[l].position < r[k].position)))
    check_induct("every name is there", 0, n + 1, lambda m: forall(0, m, lambda i: exists(0, len(r), lambda k: key(r[k].position) == key(i))),
                 aid=lambda m: m == 0 or exists(0, m - 1, lambda s: key(s) == key(m - 1)) or exists(0, len(r), lambda k: key(r[k].position) == key(m - 1)))
