"""Test point generators (C17)."""
from pyvc_dsl import *
import numpy as np
import itertools
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.driver.grid_test_point_generator import GridTestPointGenerator
from wfa_planning_evaluation_framework.driver.latin_hypercube_random_test_point_generator import LatinHypercubeRandomTestPointGenerator
from wfa_planning_evaluation_framework.driver.uniformly_random_test_point_generator import UniformlyRandomTestPointGenerator
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget


class SpendPub(object):
    def __init__(self, m):
        self.max_spend = m


class SpendData(object):
    """a data set of which only the maximum spends matter"""

    def __init__(self, maxs):
        self._data = [SpendPub(m) for m in maxs]
        self.publisher_count = len(maxs)


def unit(v):
    return v if 0 <= v and v < 1 else 0


class Unit(object):
    """a random stream of arbitrary numbers in [0, 1)"""

    def __init__(self, f):
        self.f = f
        self.calls = 0

    def random(self, size=None):
        if isinstance(size, tuple):
            return np.array([self.random(size[1]) for _ in range(size[0])])
        self.calls += 1
        c = self.calls
        f = self.f
        return np.array([unit(f(c, i)) for i in range(size)])


@lemma(props=["C17"], types=dict(maxs=List(Real), f=Fun(Int, Int, Real), np_=Int, pubs=Int, per=Int, i=Nat, k=Nat), concrete=False)
def uniform_points(maxs, f, np_, pubs, per, i, k):
    assume(len(maxs) >= 1 and k < len(maxs))
    assume(forall(0, len(maxs), lambda q: maxs[q] >= 0))
    g = UniformlyRandomTestPointGenerator(SpendData(maxs), Unit(f), np_, pubs, per)
    pts = list(g.test_points())
    check("documented number of points", len(pts) == max(100, np_, pubs * per))
    assume(i < len(pts))
    check("one coordinate per publisher", len(pts[i]) == len(maxs))
    check("within the box", 0 <= pts[i][k] and pts[i][k] <= maxs[k])


@lemma(props=["C17"], types=dict(m=Real, size=Int, i=Nat), concrete=False)
def grid_points_one_publisher(m, size, i):
    assume(m >= 0 and size >= 1 and i < size)
    pts = list(GridTestPointGenerator(SpendData([m]), None, size).test_points())
    check("grid size points", len(pts) == size)
    check("evenly spaced interior points", len(pts[i]) == 1 and eq(pts[i][0], m * (i + 1) / (size + 1)))


@lemma(props=["C17"], types=dict(m=Real, o=Real, size=Int, i=Nat, j=Nat), concrete=False)
def grid_points_two_publishers(m, o, size, i, j):
    assume(m >= 0 and o >= 0 and size >= 1 and i < size and j < size)
    pts = list(GridTestPointGenerator(SpendData([m, o]), None, size).test_points())
    check("grid size squared points", len(pts) == size * size)
    check("one coordinate per publisher", len(pts[i * size + j]) == 2)
    check("every combination of evenly spaced interior points", eq(pts[i * size + j][0], m * (i + 1) / (size + 1)) and eq(pts[i * size + j][1], o * (j + 1) / (size + 1)))


def fast_distances():
    """pyDOE computes pairwise distances with a slow double loop; the same distances faster"""
    import pyDOE.doe_lhs
    from scipy.spatial.distance import pdist
    pyDOE.doe_lhs._pdist = pdist


def gen_maxs(g):
    return [g.rng.choice([0.0, 1.0, 2.5, 1e-3, 1e6, g.rng.random() * 10]) for _ in range(g.rng.randint(1, 4))]


def real_data(maxs):
    return DataSet([PublisherData([(1, m / 2), (2, m)] if m > 0 else [(1, m)], "p%d" % i) for i, m in enumerate(maxs)], "d")


@lemma(props=["C17"], types=dict(maxs=List(Real), size=Int), symbolic=False, gen=dict(maxs=gen_maxs, size=lambda g: g.rng.randint(1, 6)))
def grid_points(maxs, size):
    pts = [list(p) for p in ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 1, "grid", {"grid_size": size}).generate_test_points(real_data(maxs), np.random.default_rng(1))]
    want = [list(p) for p in itertools.product(*[[m * (j + 1) / (size + 1) for j in range(size)] for m in maxs])]
    check("number of grid points", len(pts) == size ** len(maxs))
    check("exactly the interior evenly spaced grid", eq(sorted(pts), sorted(want)))


def documented_count(strategy, kw):
    n = max(kw.get("npoints", 100), kw.get("npublishers", 1) * kw.get("minimum_points_per_publisher", 100), 100)
    return min(n, 2000) if strategy == "latin_hypercube" else n


def gen_kw(g):
    kw = {}
    if g.rng.random() < 0.7:
        kw["npoints"] = g.rng.choice([0, 1, 99, 100, 101, 150, 203, 299])
    if g.rng.random() < 0.7:
        kw["npublishers"] = g.rng.choice([0, 1, 2, 3, 4])
    if g.rng.random() < 0.6:
        kw["minimum_points_per_publisher"] = g.rng.choice([0, 1, 34, 50, 67, 101])
    return kw


@lemma(props=["C17"], types=dict(maxs=List(Real), kw=Int, strategy=Str, seed=Int), symbolic=False,
       gen=dict(maxs=gen_maxs, kw=gen_kw, strategy=lambda g: g.rng.choice(["latin_hypercube", "uniformly_random"]), seed=lambda g: g.rng.randrange(1 << 30)))
def random_points(maxs, kw, strategy, seed):
    fast_distances()
    d = real_data(maxs)
    par = ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 1, strategy, kw)
    np.random.seed(seed % 1000)
    pts = [list(p) for p in par.generate_test_points(d, np.random.default_rng(seed))]
    n = documented_count(strategy, kw)
    check("documented number of points", len(pts) == n)
    check("one coordinate per publisher, inside the box", all(len(p) == len(maxs) and all(0 <= x <= m for x, m in zip(p, maxs)) for p in pts))
    if strategy == "latin_hypercube":
        for k, m in enumerate(maxs):
            if m > 0:
                u = sorted(p[k] / m * n for p in pts)
                check("exactly one value per stratum", all(i - 1e-6 <= x <= i + 1 + 1e-6 for i, x in enumerate(u)))
    elif n >= 100:
        for k, m in enumerate(maxs):
            check("points spread over the box", m == 0 or (min(p[k] for p in pts) < 0.5 * m < max(p[k] for p in pts)))
    np.random.seed((seed + 1) % 1000)
    check("a function of the data set and the given generator", pts == [list(p) for p in par.generate_test_points(d, np.random.default_rng(seed))])


@lemma(props=["C17"], types=dict(npoints=Int, seed=Int), symbolic=False, max_cases=2, weight=0.1,
       gen=dict(npoints=lambda g: g.rng.choice([1999, 2001, 2500]), seed=lambda g: g.rng.randrange(1 << 30)))
def large_designs(npoints, seed):
    fast_distances()
    for strategy in ("latin_hypercube", "uniformly_random"):
        for kw in ({"npoints": npoints}, {"npublishers": npoints, "minimum_points_per_publisher": 1}):
            pts = list(ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 1, strategy, kw).generate_test_points(real_data([2.0]), np.random.default_rng(seed)))
            check("documented number of points", len(pts) == documented_count(strategy, kw))


@lemma(props=["C17"], types=dict(name=Str), symbolic=False, gen=dict(name=lambda g: g.rng.choice(["", "Grid", "latin", "lhs", "gridd", "uniform"])))
def unknown_strategy(name):
    expect_raises(ValueError, lambda: list(ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 1, name, {}).generate_test_points(real_data([1.0]), np.random.default_rng(1))))
