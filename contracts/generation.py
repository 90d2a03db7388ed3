"""Synthetic data: impression and price generators, overlap relabelling, data design generation (C16)."""
from pyvc_dsl import *
import math
from collections import Counter
import numpy as np
from wfa_cardinality_estimation_evaluation_framework.simulations import set_generator as SETGEN
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters, GeneratorParameters
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import HeavyTailedImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import HeterogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import HomogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.overlap_data_set import OverlapDataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import SequentiallyCorrelatedOverlapDataSet, OrderOptions, CorrelatedSetsOptions
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import SyntheticDataDesignGenerator

LOG = List(Tuple(Int, Real))


class Draws(object):
    """a random stream given as the list of its draws; shuffling is any rearrangement (here: reversal)"""

    def __init__(self, draws):
        self.draws = draws
        self.k = 0

    def poisson(self, lam=1.0, size=None):
        if size is not None:
            return np.array([self.poisson() for _ in range(size)], dtype=int)
        self.k += 1
        return self.draws[self.k - 1]

    def zipf(self, a, size=None):
        if size is not None:
            return np.array([self.zipf(a) for _ in range(size)], dtype=int)
        self.k += 1
        return 1 + self.draws[self.k - 1]

    def gamma(self, shape, scale=1.0, size=None):
        if size is not None:
            return np.array([shape * scale for _ in range(size)])
        return shape * scale

    def shuffle(self, x):
        x.reverse()

    def permutation(self, x):
        return np.array(x[::-1])


def as_drawn(imps, draws):
    n = len(draws)
    c = Counter(imps)
    check("as many impressions as drawn", len(imps) == total(0, n, lambda i: 1 + draws[i]))
    check("exactly the users 0..n-1", forall_int(range(n + 2), lambda u: iff(u in c, 0 <= u and u < n)))
    check("each user as often as drawn", forall(0, n, lambda u: c[u] == 1 + draws[u]))


@lemma(props=["C16"], types=dict(draws=List(Nat), lam=Real))
def homogeneous(draws, lam):
    as_drawn(HomogeneousImpressionGenerator(len(draws), lam, Draws(draws))(), draws)


@lemma(props=["C16"], types=dict(draws=List(Nat), a=Real, b=Real))
def heterogeneous(draws, a, b):
    as_drawn(HeterogeneousImpressionGenerator(len(draws), a, b, Draws(draws))(), draws)


@lemma(props=["C16"], types=dict(draws=List(Nat), s=Real))
def heavy_tailed(draws, s):
    assume(s > 1)
    as_drawn(HeavyTailedImpressionGenerator(len(draws), s, Draws(draws))(), draws)


@lemma(props=["C16"], types=dict(imps=List(Int), cpi=Real))
def fixed_price(imps, cpi):
    log = FixedPriceGenerator(cpi)(imps)
    check("one event per impression", len(log) == len(imps))
    check("i-th impression costs i times the unit price, in order", forall(0, len(imps), lambda i: log[i][0] == imps[i] and log[i][1] == (i + 1) * cpi))


@lemma(props=["C16"], types=dict(log=LOG, ids=List(Int), i=Nat, j=Nat), concrete=False)
def relabelling(log, ids, i, j):
    assume(len(log) >= 1 and i < len(log) and j < len(log))
    assume(forall(0, len(ids), lambda a: forall(0, len(ids), lambda b: a == b or ids[a] != ids[b])))
    p = PublisherData(log, "p")
    assume(len(ids) == p.max_reach)
    out = OverlapDataSet._label_ids([ids], [p])
    check("one publisher out per publisher in", len(out) == 1)
    q = out[0]
    check("name kept", q.name == "p")
    check("number of events kept", q.max_impressions == p.max_impressions)
    check("spends kept", q._data[i][1] == p._data[i][1])
    check("one-to-one on users", iff(q._data[i][0] == q._data[j][0], p._data[i][0] == p._data[j][0]))
    check("onto assigned ids", exists(0, len(ids), lambda a: ids[a] == q._data[i][0]))


PUB = Obj("data_generators.publisher_data:PublisherData", impression_log_data=LOG, name=Const("p"))


def fixed_sets(set_sizes, ids):
    """a set generator that hands out the given ids"""
    check("asked for as many ids as each publisher has users", len(set_sizes) == len(ids) and forall(0, len(ids), lambda k: set_sizes[k] == len(ids[k])))
    return ids


def gen_pubs(g):
    out = []
    for _ in range(g.rng.randint(1, 4)):
        log = [(g.rng.randint(0, 5), float(g.rng.randint(1, 6))) for _ in range(g.rng.randint(1, 9))]
        p = PublisherData(list(log), "p")
        out.append(p)
    return out


def gen_ids(g):
    return [g.rng.sample(range(20), p.max_reach) for p in g.args["pubs"]]


@lemma(props=["C16"], types=dict(pubs=List(PUB), ids=List(List(Int)), k=Nat, i=Nat, j=Nat),
       gen=dict(pubs=gen_pubs, ids=gen_ids, k=lambda g: g.rng.randrange(len(g.args["pubs"])), i=lambda g: g.rng.randrange(g.args["pubs"][g.args["k"]].max_impressions),
                j=lambda g: g.rng.randrange(g.args["pubs"][g.args["k"]].max_impressions)))
def relabelled_data_set(pubs, ids, k, i, j):
    assume(k < len(pubs) and len(ids) == len(pubs))
    assume(forall(0, len(pubs), lambda p: pubs[p].max_impressions >= 1))
    assume(i < pubs[k].max_impressions and j < pubs[k].max_impressions)
    assume(forall(0, len(ids), lambda p: len(ids[p]) == pubs[p].max_reach))
    assume(forall(0, len(ids), lambda p: forall(0, len(ids[p]), lambda a: forall(0, len(ids[p]), lambda b: a == b or ids[p][a] != ids[p][b]))))
    d = OverlapDataSet(pubs, fixed_sets, {"ids": ids}, "d")
    check("name and number of publishers", d.name == "d" and d.publisher_count == len(pubs))
    p, q = pubs[k], d._data[k]
    check("number of events kept", q.max_impressions == p.max_impressions)
    check("spends kept", q._data[i][1] == p._data[i][1])


def gen_named(g):
    pubs = gen_pubs(g)
    for i, p in enumerate(pubs):
        p.name = "n%d" % g.rng.randint(0, 50)
    return pubs


def same_structure(d, pubs):
    """every publisher's log up to a one-to-one renaming of users"""
    check("number of publishers", d.publisher_count == len(pubs))
    for p, q in zip(pubs, d._data):
        check("publisher name kept", q.name == p.name)
        a, b = p._data, q._data
        check("spends kept in place", [x for _, x in a] == [x for _, x in b])
        m = {}
        check("users renamed consistently", all(m.setdefault(u, v) == v for (u, _), (v, _) in zip(a, b)))
        check("users renamed one-to-one", len(set(m.values())) == len(m))


@lemma(props=["C16"], types=dict(pubs=List(PUB), ids=List(List(Int))), symbolic=False, gen=dict(pubs=gen_named, ids=gen_ids))
def relabelling_is_a_renaming(pubs, ids):
    d = OverlapDataSet(pubs, fixed_sets, {"ids": ids}, "d")
    same_structure(d, pubs)
    check("onto exactly the assigned ids", all(set(int(u) for u, _ in q._data) == set(s) for q, s in zip(d._data, ids)))
    for k in range(len(pubs)):
        one = [0] * len(pubs)
        one[k] = pubs[k].max_impressions
        check("single publisher reach at every frequency kept", [d.reach_by_impressions(one, 5).reach(f) for f in range(1, 6)] ==
              [DataSet(pubs, "e").reach_by_impressions(one, 5).reach(f) for f in range(1, 6)])


def gen_rng(g):
    return np.random.default_rng(g.rng.randrange(1 << 30))


@lemma(props=["C16"], types=dict(pubs=List(PUB), universe=Int, seed=Int), symbolic=False, pure=False,
       gen=dict(pubs=gen_named, universe=lambda g: g.rng.choice([6, 20, 100]), seed=lambda g: g.rng.randrange(1 << 30)))
def independent_overlap(pubs, universe, seed):
    SETGEN.HOOK.built = []
    d = IndependentOverlapDataSet(pubs, universe, np.random.default_rng(seed), "d")
    b = SETGEN.HOOK.built[-1]
    check("the overlap asked for", b["kind"] == "independent" and b["universe_size"] == universe and b["set_sizes"] == [p.max_reach for p in pubs])
    same_structure(d, pubs)
    e = IndependentOverlapDataSet(pubs, universe, np.random.default_rng(seed), "d")
    check("a function of the given generator", [p._data for p in d._data] == [p._data for p in e._data])


@lemma(props=["C16"], types=dict(pubs=List(PUB), order=Int, corr=Int, share=Real, seed=Int), symbolic=False, pure=False,
       gen=dict(pubs=gen_named, order=lambda g: g.rng.randrange(3), corr=lambda g: g.rng.randrange(2), share=lambda g: g.rng.choice([0.0, 0.25, 0.5, 1.0, g.rng.random()]),
                seed=lambda g: g.rng.choice([None, g.rng.randrange(1 << 30)])))
def sequential_overlap(pubs, order, corr, share, seed):
    SETGEN.HOOK.built = []
    o, c = list(OrderOptions)[order], list(CorrelatedSetsOptions)[corr]
    mk = lambda: SequentiallyCorrelatedOverlapDataSet(pubs, o, c, share, None if seed is None else np.random.default_rng(seed), "d")
    d = mk()
    b = SETGEN.HOOK.built[-1]
    check("the overlap asked for", b["kind"] == "sequential" and b["order"] == o and b["correlated_sets"] == c and b["shared_prop"] == share
          and b["set_sizes"] == [p.max_reach for p in pubs])
    same_structure(d, pubs)
    check("a function of the given generator", [p._data for p in d._data] == [p._data for p in mk()._data])


@lemma(props=["C16"], types=dict(n=Int, kind=Int, x=Real, seed=Int), symbolic=False,
       gen=dict(n=lambda g: g.rng.choice([0, 1, 2, 7, 100]), kind=lambda g: g.rng.randrange(3), x=lambda g: g.rng.choice([0.5, 2.0, 4.0]), seed=lambda g: g.rng.randrange(1 << 30)))
def generators_real_streams(n, kind, x, seed):
    def mk(r):
        return (HomogeneousImpressionGenerator(n, x, r) if kind == 0 else HeterogeneousImpressionGenerator(n, x, 1.5, r) if kind == 1
                else HeavyTailedImpressionGenerator(n, 1.5 + x, r))
    a = mk(np.random.default_rng(seed))()
    check("exactly the users 0..n-1, each at least once", set(a) == set(range(n)))
    check("a function of the given generator", list(a) == list(mk(np.random.default_rng(seed))()))
    if n > 0 and x > 0:
        log = PublisherData.generate_publisher_data(lambda: a, FixedPriceGenerator(x), "q")
        check("priced in order, nothing lost", log._data == [(u, (i + 1) * x) for i, u in enumerate(a)] and log.name == "q" and log.max_reach == n)
        m = HeavyTailedImpressionGenerator(n, 3.0) if kind == 2 else HeterogeneousImpressionGenerator(n) if kind == 1 else HomogeneousImpressionGenerator(n, x)
        check("default generator", set(m()) == set(range(n)))


@lemma(props=["C16"], types=dict(shape=Real, scale=Real, n=Int), symbolic=False,
       gen=dict(shape=lambda g: g.rng.choice([0.5, 2.0, 3.0]), scale=lambda g: g.rng.choice([0.5, 2.0, 5.0]), n=lambda g: g.rng.randint(0, 9)))
def stream_parameters(shape, scale, n):
    """the distributions asked of the stream are those the generator was given"""
    asked = []

    class Spy(object):
        def give(self, what, v, size):
            if size is None:
                asked.append(what)
                return v
            asked.extend([what] * size)
            return np.array([v] * size)

        def gamma(self, shape, scale=1.0, size=None):
            return self.give(("gamma", shape, scale), 7.25, size)

        def poisson(self, lam=1.0, size=None):
            if isinstance(lam, np.ndarray):
                return np.array([self.poisson(float(v)) for v in lam], dtype=int)
            return self.give(("poisson", lam), 2, size)

        def zipf(self, a, size=None):
            return self.give(("zipf", a), 3, size)

        def shuffle(self, x):
            asked.append(("shuffle", len(x)))

        def permutation(self, x):
            asked.append(("shuffle", len(x)))
            return np.array(x, dtype=int)
    for m, want, per in ((HomogeneousImpressionGenerator(n, shape, Spy()), [("poisson", shape)], 3),
                         (HeterogeneousImpressionGenerator(n, shape, scale, Spy()), [("gamma", shape, scale), ("poisson", 7.25)], 3),
                         (HeavyTailedImpressionGenerator(n, 1 + shape, Spy()), [("zipf", 1 + shape)], 3)):
        del asked[:]
        r = m()
        check("one draw per user from the given distribution, then one shuffle of everything", sorted(map(repr, asked)) == sorted(map(repr, want * n + [("shuffle", per * n)])))
        check("impressions as drawn", sorted(r) == sorted(list(range(n)) * per))
    expect_raises(AssertionError, lambda: HeavyTailedImpressionGenerator(3, 1.0, Spy()))


class SizeOnly(object):
    """impression generator that shows the size it was asked for: one impression per user"""

    def __init__(self, n, random_generator, extra=0):
        self.n = n

    def __call__(self):
        return list(range(self.n))


@lemma(props=["C16"], types=dict(num=Int, size=Int, ratio=Real, kind=Int), symbolic=False,
       gen=dict(num=lambda g: g.rng.choice([1, 2, 3, 5, 10, 20]), size=lambda g: g.rng.choice([10, 100, 999, 2000]), ratio=lambda g: g.rng.choice([1, 0.5, 0.9, 0.1, 0.3]),
                kind=lambda g: g.rng.randrange(3)))
def generated_data_set(num, size, ratio, kind):
    assume(size * ratio >= num + 8)        # each step rounds down: small ratios of small sizes end in empty publishers
    o = (GeneratorParameters("FullOverlap", DataSet, {}),
         GeneratorParameters("Independent", IndependentOverlapDataSet, {"universe_size": 3 * size, "random_generator": 1}),
         GeneratorParameters("Sequential", SequentiallyCorrelatedOverlapDataSet, {"order": OrderOptions.original, "correlated_sets": CorrelatedSetsOptions.all,
                                                                              "shared_prop": 0.25, "random_generator": 1}))[kind]
    keep = dict(o.params)
    par = DataSetParameters(num_publishers=num, largest_publisher_size=size, largest_to_smallest_publisher_ratio=ratio,
                            pricing_generator_params=GeneratorParameters("Fixed", FixedPriceGenerator, {"cost_per_impression": 0.25}),
                            impression_generator_params=GeneratorParameters("Size", SizeOnly, {"extra": 1}), overlap_generator_params=o)
    d = SyntheticDataDesignGenerator("/nonexistent", "x", 3, False)._generate_data_set(par)
    check("requested number of publishers", d.publisher_count == num)
    check("named after its parameters", d.name == str(par))
    check("publishers named by number", [p.name for p in d._data] == [str(i + 1) for i in range(num)])
    sizes = [p.max_reach for p in d._data]
    check("sizes from the largest, non-increasing", sizes[0] == size and all(a >= b for a, b in zip(sizes, sizes[1:])))
    check("down to about the requested ratio", abs(sizes[-1] - size * (ratio if num > 1 else 1)) <= num)
    check("geometric in between", all(abs(s - size * ratio ** (i / max(1, num - 1))) <= num for i, s in enumerate(sizes)) if num > 1 else True)
    check("priced by the given generator", all([x for _, x in p._data] == [0.25 * (i + 1) for i in range(s)] for p, s in zip(d._data, sizes)))
    check("parameters not modified", o.params == keep)


@lemma(props=["C16"], types=dict(num=Int, seed=Int), symbolic=False, max_cases=60,
       gen=dict(num=lambda g: g.rng.choice([1, 2, 3]), seed=lambda g: g.rng.randrange(1000)))
def generation_reproducible(num, seed):
    from wfa_planning_evaluation_framework.data_generators import analysis_example_data_design as A
    def run():
        s = SyntheticDataDesignGenerator("/nonexistent", "x", seed, False)
        out = []
        for par in [p for p in A.generate_data_design_config(s._random_generator) if p.num_publishers == num][:3]:
            out.append(s._generate_data_set(par._replace(largest_publisher_size=50)))
        return out
    a, b = run(), run()
    check("a function of the seed", [[p._data for p in d._data] for d in a] == [[p._data for p in d._data] for d in b])


@lemma(props=["C16"], types=dict(which=Int, seed=Int), symbolic=False, gen=dict(which=lambda g: g.rng.randrange(5), seed=lambda g: g.rng.randrange(100)))
def design_configs(which, seed):
    import importlib
    import itertools
    n = ["analysis_example_data_design", "simple_data_design_example", "single_publisher_design", "m3_data_design", "lhs_data_design_example"][which]
    mod = importlib.import_module("wfa_planning_evaluation_framework.data_generators." + n)
    ps = list(mod.generate_data_design_config(np.random.default_rng(seed)))
    names = [str(p) for p in ps]
    check("no two data sets share a name", len(set(names)) == len(names))
    if which == 0:
        check("every combination of levels once", len(ps) == len(list(itertools.product(*mod.LEVELS.values()))) and len(set(
            (p.num_publishers, p.largest_publisher_size, p.largest_to_smallest_publisher_ratio, str(p.pricing_generator_params), str(p.impression_generator_params),
             str(p.overlap_generator_params)) for p in ps)) == len(ps))
    if which == 1:
        check("every combination once", sorted((p.num_publishers, p.largest_publisher_size, p.largest_to_smallest_publisher_ratio) for p in ps) ==
              sorted(itertools.product(mod.NUM_PUBLISHERS, mod.LARGEST_PUBLISHER, mod.PUBLISHER_RATIOS)))
    if which == 2:
        check("every combination once", len(ps) == len(mod.PUBLISHER_SIZES) * len(mod.IMPRESSION_GENERATORS))
    if which >= 3:
        check("requested number of designs", len(ps) == mod.NUM_SAMPLES_FOR_LHS)
        for p in ps:
            check("levels come from the design", p.num_publishers in mod.NUM_PUBLISHERS and p.largest_publisher_size in mod.LARGEST_PUBLISHER
                  and p.largest_to_smallest_publisher_ratio in mod.PUBLISHER_RATIOS and p.impression_generator_params in mod.IMPRESSION_GENERATORS)
            if which == 3 and p.overlap_generator_params.name == "Independent":
                u = p.overlap_generator_params.params["universe_size"]
                check("universe from the largest publisher", u >= p.largest_publisher_size and any(
                    u == int(p.largest_publisher_size / q.params["largest_pub_to_universe_ratio"]) for q in mod.OVERLAP_GENERATORS if q.name == "Independent"))
        check("design constants not modified", which == 4 or all("largest_pub_to_universe_ratio" in q.params for q in mod.OVERLAP_GENERATORS if q.name == "Independent"))
