"""Restricted (rank-one interaction) pairwise union surface: coordinate descent (C13)."""
from pyvc_dsl import *
import numpy as np
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import RestrictedPairwiseUnionReachSurface as R
from contracts.pairwise import LinCurve, CURVES, gen_curves, reach_of


def gen_lbd_p(g, p):
    """feasible vectors: inside, on the wall, with zeros, all zero"""
    v = [g.rng.choice([0.0, g.rng.random(), g.rng.random(), 3 * g.rng.random()]) for _ in range(p)]
    if g.rng.random() < 0.15:
        v = [0.0] * p
    if g.rng.random() < 0.2:
        v = [x if i == 0 else 0.0 for i, x in enumerate(v)]
    s = sum(v)
    w = max([x * (s - x) for x in v] + [0])
    if w > 1 or (w > 0 and g.rng.random() < 0.3):
        v = [x / w ** 0.5 for x in v]
    return v


def gen_lbd(g):
    return gen_lbd_p(g, g.rng.choice([1, 2, 2, 3, 3, 4, 5, 6]))


def gen_lbd_c(g):
    return gen_lbd_p(g, len(g.args["curves"]))


def gen_i(g):
    return g.rng.randrange(len(g.args["lbd"]))


@lemma(props=["C13"], types=dict(lbd=List(Real)),
       gen=dict(lbd=lambda g: [x * g.rng.choice([1, 1, 1, 1.2, 0.9]) - g.rng.choice([0] * 9 + [0.3]) for x in gen_lbd(g)]))
def feasibility_test(lbd):
    n = len(lbd)
    r = R._check_lbd_feasiblity(lbd)
    s = sum(lbd)
    check("accepts exactly the vectors with non-negative entries and row sums at most one",
          iff(r, forall(0, n, lambda k: not (lbd[k] < 0) and not (lbd[k] * (s - lbd[k]) > 1 + 1e-6))))


@lemma(props=["C13"], types=dict(lbd=List(Real), i=Nat), gen=dict(lbd=gen_lbd, i=gen_i))
def feasible_bound(lbd, i):
    n = len(lbd)
    tol = 1e-6
    assume(i < n)
    s = sum(lbd)
    assume(forall(0, n, lambda k: lbd[k] >= 0 and le(lbd[k] * (s - lbd[k]), 1)))
    assume(s <= 1000)
    b = R._get_feasible_bound(lbd, i)
    o = s - lbd[i]
    check("not negative", le(0, b))
    check("at least the current value", implies(o >= tol, le(lbd[i], b)))
    check("own row stays feasible", le(b * o, 1))
    check("other rows stay feasible", forall(0, n, lambda k: k == i or le(lbd[k] * (o - lbd[k] + b), 1)))
    # exactness: whatever is larger violates a row (unless the bound is the cap for rows that are numerically zero)
    check("tight: the bound is attained by some row", implies(o >= tol and forall(0, n, lambda k: k == i or lbd[k] == 0 or lbd[k] >= tol) and b < 1e5,
          eq(b * o, 1) or exists(0, n, lambda k: k != i and lbd[k] >= tol and eq(lbd[k] * (o - lbd[k] + b), 1))))


# ------------------------------------------------------------------ training points
def gen_pts(g):
    cs = g.args["curves"]
    p = len(cs)
    lam = gen_lbd_p(g, p)
    pts = []
    only_single = g.rng.random() < 0.12
    for _ in range(g.rng.randint(1, 6)):
        n = [g.rng.choice([0, g.rng.randint(1, 200), g.rng.randint(1, 200), 60]) for _ in range(p)]
        if only_single:
            k = g.rng.randrange(p)
            n = [x if j == k else 0 for j, x in enumerate(n)]
        r = [reach_of(c, x) for c, x in zip(cs, n)]
        u = sum(r) - sum(lam[i] * lam[j] * r[i] * r[j] / 4 / max(cs[i]._max_reach, cs[j]._max_reach)
                         for i in range(p) for j in range(p) if i != j)
        if g.rng.random() < 0.5:
            u = max(0.0, u * (1 + g.rng.uniform(-0.5, 0.3)))
        pts.append((n, u))
    return pts


def mk(curves, pts):
    s = R(curves, [ReachPoint(n, [u]) for n, u in pts])
    s._define_criteria()
    s._setup_predictor_response()
    return s


def feasible(v, tol=1e-6):
    t = sum(v)
    return all(x == x and x >= -1e-9 and x * (t - x) <= 1 + tol for x in v)


def overlap_of(s, v, n):
    """the overlap the surface predicts for the interaction vector v"""
    s._fitted_lbd = np.array(v)
    s._construct_a_from_lambda()
    return sum(s.get_reach_vector(n)) - s.by_impressions(n).reach(1)


G3 = dict(curves=gen_curves, lbd=gen_lbd_c, pts=gen_pts)


@lemma(props=["C13"], types=dict(curves=CURVES, lbd=List(Real), pts=List(Real)), gen=G3, symbolic=False)
def loss_is_of_the_prediction(curves, lbd, pts):
    s = mk(curves, pts)
    p = len(curves)
    want = 0.0
    for n, u in pts:
        if sum(1 for x in n if x > 0) > 1:
            y = max(0.0001, sum(s.get_reach_vector(n)) - u)
            want += (y - overlap_of(s, lbd, n)) ** 2
    check("loss is the squared error of the predicted overlaps", close(s._loss(lbd), want))
    a = np.array(s._a).reshape(p, p) if pts and hasattr(s, "_fitted_lbd") else np.zeros((p, p))
    check("interaction matrix symmetric with zero diagonal", bool(np.all(a == a.T)) and bool(np.all(np.diag(a) == 0)))
    check("interaction matrix is half the outer product", all(close(a[i][j], lbd[i] * lbd[j] / 2) for i in range(p) for j in range(p) if i != j) or not hasattr(s, "_fitted_lbd"))


@lemma(props=["C13"], types=dict(curves=CURVES, lbd=List(Real), pts=List(Real), i=Nat, t=Real),
       gen=dict(i=gen_i, t=lambda g: g.rng.choice([0.0, 1.0, g.rng.random(), g.rng.random()]), **G3), symbolic=False)
def step_is_best_feasible(curves, lbd, pts, i, t):
    s = mk(curves, pts)
    old = list(lbd)
    x = float(s._step(lbd, i))
    check("argument unchanged", list(lbd) == old)
    new = old[:i] + [x] + old[i + 1:]
    check("updated vector is feasible", feasible(new))
    scale = 1 + sum(y * y for y in s._ys)
    best = s._loss(new)
    check("never increases the loss", best <= s._loss(old) + 1e-9 * scale)
    b = s._get_feasible_bound(old, i)
    for v in (0.0, b, t * b, (1 - t) * x + t * b, t * x):
        check("no feasible value of the coordinate is better", best <= s._loss(old[:i] + [v] + old[i + 1:]) + 1e-7 * scale)


@lemma(props=["C13"], types=dict(curves=CURVES, lbd=List(Real), pts=List(Real), seed=Nat), gen=dict(seed=lambda g: g.rng.randrange(10 ** 6), **G3),
       symbolic=False)
def round_descends(curves, lbd, pts, seed):
    s = mk(curves, pts)
    np.random.seed(seed)
    before = s._loss(lbd)
    new = s._round(list(lbd))
    scale = 1 + sum(y * y for y in s._ys)
    check("a round keeps the vector feasible", len(new) == len(lbd) and feasible(new))
    check("a round never increases the loss", s._loss(new) <= before + 1e-9 * scale)
    v, l, _ = s._fit_one_init_lbd(list(lbd))
    check("a descent ends in a feasible vector", len(v) == len(lbd) and feasible(v))
    check("a descent reports the loss of its vector", close(l, s._loss(v)))
    check("a descent never increases the loss", l <= before + 1e-9 * scale)


@lemma(props=["C13"], types=dict(p=Nat, seed=Nat), gen=dict(p=lambda g: g.rng.choice([1, 2, 3, 4, 5, 6]), seed=lambda g: g.rng.randrange(10 ** 6)), symbolic=False)
def initial_vectors_are_feasible(p, seed):
    np.random.seed(seed)
    check("truncated uniform", feasible(R._truncated_uniform_initial_lbd(p)) and len(R._truncated_uniform_initial_lbd(p)) == p)
    v = R._scaled_from_simplex_initial_lbd(p)
    check("scaled simplex", feasible(v) and len(v) == p)


@lemma(props=["C13"], types=dict(curves=CURVES, pts=List(Real), sampler=Str), symbolic=False, max_cases=40,
       gen=dict(curves=lambda g: gen_curves(g)[:3], pts=gen_pts, sampler=lambda g: g.rng.choice(["truncated_uniform", "other"])))
def fit_keeps_the_best(curves, pts, sampler):
    s = mk(curves, pts)
    p = len(curves)
    seen = []
    s._define_criteria(max_num_init=12, min_num_init=6, num_near_the_wall=3)
    orig = s._fit_one_init_lbd
    s._fit_one_init_lbd = lambda v: seen.append(orig(v)) or seen[-1]
    s._fit_multi_init_lbds(s._truncated_uniform_initial_lbd if sampler == "truncated_uniform" else s._scaled_from_simplex_initial_lbd)
    check("fitted vector is feasible", feasible(s._fitted_lbd))
    check("of the smallest loss seen", close(s._loss(s._fitted_lbd), min(l for _, l, _ in seen)) and s._fitted_loss == min(l for _, l, _ in seen))
    s._construct_a_from_lambda()
    a = np.array(s._a).reshape(p, p)
    check("interactions of the fitted vector", all(close(a[i][j], 0 if i == j else s._fitted_lbd[i] * s._fitted_lbd[j] / 2) for i in range(p) for j in range(p)))
    check("number of starts", 6 <= len(seen) <= 12)
