"""Pairwise union reach surface (C12)."""
from pyvc_dsl import *
import numpy as np
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface


class LinCurve(ReachCurve):
    """reach proportional to impressions up to a maximum (any reach in [0, m] is a value of it)"""

    def __init__(self, slope, m):
        super().__init__([ReachPoint([1], [1])], m)
        self._slope = slope

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(impressions, [min(self._slope * impressions[0], self._max_reach)])

    def impressions_for_spend(self, spend):
        return spend * 2


CURVES = List(Obj("contracts.pairwise:LinCurve", slope=Real, m=Real))


def gen_p(g):
    return g.rng.choice([1, 2, 2, 3, 3, 4, 5])


def gen_curves(g):
    return [LinCurve(g.rng.choice([0.5, 1.0, 0.25, g.rng.random()]), float(g.rng.choice([10, 100, 100, 7, g.rng.randint(1, 500)])))
            for _ in range(gen_p(g))]


def gen_imps(g):
    p = len(g.args["curves"])
    return [g.rng.choice([0, 0, g.rng.randint(0, 300), 10 ** 6]) for _ in range(p)]


def gen_feasible(g):
    return gen_feas(g, len(g.args["curves"]))


def gen_feas(g, p):
    """symmetric, zero diagonal, rows sum to at most one"""
    a = [[0.0] * p for _ in range(p)]
    for i in range(p):
        for j in range(i):
            a[i][j] = a[j][i] = g.rng.choice([0.0, g.rng.random(), 1.0])
    m = max([1.0] + [sum(r) for r in a])
    k = g.rng.choice([1.0, 1.0, g.rng.random()])
    return np.array([x / m * k for r in a for x in r])


def gen_any_a(g):
    p = len(g.args["curves"])
    return np.array([g.rng.choice([0.0, 1.0, g.rng.random(), 2.0, -1.0]) for _ in range(p * p)])


def surface(curves, a):
    s = PairwiseUnionReachSurface(curves, [ReachPoint([1 for c in curves], [1])])
    s._a = a
    return s


def reach_of(c, n):
    return min(c._slope * n, c._max_reach)


def overlap(curves, imps, a, i, j):
    p = len(curves)
    return a[i * p + j] * reach_of(curves[i], imps[i]) * reach_of(curves[j], imps[j]) / (max(curves[i]._max_reach, curves[j]._max_reach) * 2)


T = dict(curves=CURVES, imps=List(Real), a=Array(1))
GA = dict(curves=gen_curves, imps=gen_imps, a=gen_any_a)
GF = dict(curves=gen_curves, imps=gen_imps, a=gen_feasible)


@lemma(props=["C12"], types=T, gen=GA)
def union_formula(curves, imps, a):
    p = len(curves)
    assume(p >= 1 and len(imps) == p and len(a) == p * p)
    assume(forall(0, p, lambda i: curves[i]._max_reach > 0))
    s = surface(curves, a)
    r = s.by_impressions(imps).reach(1)
    check("sum of the reaches minus the pairwise overlaps",
          close(r, total(0, p, lambda i: reach_of(curves[i], imps[i])) - total(0, p, lambda i: total(0, p, lambda j: overlap(curves, imps, a, i, j)))))
    check("impressions of the point", eq(list(s.by_impressions(imps).impressions), list(imps)))


@lemma(props=["C12"], types=dict(p=Nat, rv=List(Real), m=List(Real), a=Array(2)), concrete=False)
def formula_bounds(p, rv, m, a):
    """what the formula (contract union_formula) implies under the constraints, for any reaches and interactions"""
    assume(p >= 1 and len(rv) == p and len(m) == p and a.shape[0] == p and a.shape[1] == p)
    assume(forall(0, p, lambda i: m[i] > 0 and 0 <= rv[i] and rv[i] <= m[i]))
    assume(forall(0, p, lambda i: forall(0, p, lambda j: a[i, j] >= 0)))
    sums = named([total(0, p, lambda j: a[i, j]) for i in range(p)])
    assume(forall(0, p, lambda i: le(sums[i], 1)))
    q = named(np.array([[rv[j] / max(m[i], m[j]) for j in range(p)] for i in range(p)]))
    check("reach share of the larger maximum is at most one", forall(0, p, lambda i: forall(0, p, lambda j: 0 <= q[i, j] and q[i, j] <= 1)))
    hv = named([rv[i] / 2 for i in range(p)])
    tm = named(np.array([[a[i, j] * hv[i] * q[i, j] for j in range(p)] for i in range(p)]))
    cm = named(np.array([[a[i, j] * hv[i] for j in range(p)] for i in range(p)]))
    check("each overlap is at most the interaction times half the reach", forall(0, p, lambda i: forall(0, p, lambda j:
          tm[i, j] >= 0 and le(tm[i, j], cm[i, j]))))
    check_induct("a constant factor moves out of the row sum", 0, p + 1, lambda n: forall(0, p, lambda i:
                 eq(total(0, n, lambda j: cm[i, j]), hv[i] * total(0, n, lambda j: a[i, j]))))
    rows = named([total(0, p, lambda j: tm[i, j]) for i in range(p)])
    caps = named([total(0, p, lambda j: cm[i, j]) for i in range(p)])
    check("row caps are the row sums times half the reach", forall(0, p, lambda i: eq(caps[i], hv[i] * sums[i])))
    check("row caps at most half the reach", forall(0, p, lambda i: le(caps[i], hv[i])))
    check("row overlaps not negative", forall(0, p, lambda i: rows[i] >= 0))
    check("row overlaps at most the caps", forall(0, p, lambda i: le(rows[i], caps[i])))
    check_induct("half of a sum", 0, p + 1, lambda n: eq(total(0, n, lambda i: hv[i]), total(0, n, lambda i: rv[i]) / 2))
    over = named(total(0, p, lambda i: rows[i]))
    check("overlap is not negative", over >= 0)
    check("overlap at most half of the sum of the single reaches", le(over, total(0, p, lambda i: rv[i]) / 2))


@lemma(props=["C12"], types=T, gen=GF, symbolic=False)
def union_bounds(curves, imps, a):
    p = len(curves)
    s = surface(curves, a)
    r = s.by_impressions(imps).reach(1)
    tot = total(0, p, lambda i: reach_of(curves[i], imps[i]))
    check("at most the sum of the single reaches", le(r, tot))
    check("at least half the sum of the single reaches", le(tot / 2, r))


@lemma(props=["C12"], types=dict(curves=CURVES, imps=List(Real), a=Array(1), k=Nat), symbolic=False,
       gen=dict(curves=gen_curves, imps=lambda g: [0] * len(g.args["curves"]), a=gen_feasible,
                k=lambda g: g.rng.randrange(len(g.args["curves"]))))
def single_publisher(curves, imps, a, k):
    v = [77 if i == k else imps[i] for i in range(len(curves))]
    r = surface(curves, a).by_impressions(v).reach(1)
    check("one active publisher: its own reach", close(r, reach_of(curves[k], 77)))


@lemma(props=["C12"], types=dict(p=Nat, rv=List(Real), c=Array(2), k=Nat), concrete=False)
def formula_single(p, rv, c, k):
    """the formula's overlap vanishes when only publisher k has reach and the diagonal is zero"""
    assume(p >= 1 and len(rv) == p and c.shape[0] == p and c.shape[1] == p and k < p)
    assume(forall(0, p, lambda i: c[i, i] == 0 and (i == k or rv[i] == 0)))
    tm = named(np.array([[c[i, j] * rv[i] * rv[j] for j in range(p)] for i in range(p)]))
    check("no overlap anywhere", forall(0, p, lambda i: forall(0, p, lambda j: tm[i, j] == 0)))
    rows = named([total(0, p, lambda j: tm[i, j]) for i in range(p)])
    check("row overlaps vanish", forall(0, p, lambda i: rows[i] == 0))
    check("total overlap vanishes", total(0, p, lambda i: rows[i]) == 0)
    check_induct("only one term", 0, p + 1, lambda n: total(0, n, lambda i: rv[i]) == (rv[k] if n > k else 0))


@lemma(props=["C12"], types=dict(curves=CURVES, spends=List(Real), a=Array(1)),
       gen=dict(curves=gen_curves, spends=gen_imps, a=gen_feasible))
def by_spend(curves, spends, a):
    p = len(curves)
    assume(p >= 1 and len(spends) == p and len(a) == p * p)
    assume(forall(0, p, lambda i: curves[i]._max_reach > 0))
    s = surface(curves, a)
    check("prediction by spend is prediction at the impressions bought",
          close(s.by_spend(spends).reach(1), s.by_impressions([x * 2 for x in spends]).reach(1)))


# ------------------------------------------------------------------ the constraints of the fit and the fit itself
def constraint_ok(curves, a):
    """what the matrices handed to the quadratic program say about a"""
    s = PairwiseUnionReachSurface(curves, [ReachPoint([1 for c in curves], [1])])
    G, h = s._get_inequality_constraints()
    A, b = s._get_equality_constraints()
    G, h, A, b = np.array(G), np.array(h).flatten(), np.array(A), np.array(b).flatten()
    return bool(np.all(G.dot(a) <= h + 1e-12)) and bool(np.all(np.abs(A.dot(a) - b) <= 1e-12))


def gen_near(g):
    """feasible points, and points violating one requirement"""
    p = len(g.args["curves"])
    a = gen_feasible(g).reshape(p, p)
    u = g.rng.random()
    if u < 0.5 and p > 1:
        i, j = g.rng.randrange(p), g.rng.randrange(p)
        d = g.rng.choice([-0.5, 0.25, 1.0, -1.0])
        k = g.rng.choice([0, 1, 2])
        if k == 0:
            a[i][j] += d
        elif k == 1:
            a[i][j] += d
            a[j][i] += d if i != j else 0
        else:
            a = a * 2
    return a.flatten()


@lemma(props=["C12"], types=dict(curves=CURVES, a=Array(1)), gen=dict(curves=gen_curves, a=gen_near), symbolic=False)
def constraints_say_exactly(curves, a):
    p = len(curves)
    m = a.reshape(p, p)
    want = bool((m >= -1e-12).all() and (m.sum(axis=0) <= 1 + 1e-12).all() and (m.sum(axis=1) <= 1 + 1e-12).all()
                and (np.abs(np.diag(m)) <= 1e-12).all() and (np.abs(m - m.T) <= 1e-12).all())
    check("constraints are non-negativity, row/column sums, zero diagonal and symmetry, nothing else", constraint_ok(curves, a) == want)


def gen_points(g):
    """training points made from a true interaction matrix (kept in g.args)"""
    cs, a = g.args["curves"], g.args["a"]
    p = len(cs)
    pts = []
    for _ in range(g.rng.randint(1, 8)):
        n = [g.rng.choice([0, g.rng.randint(1, 200), g.rng.randint(1, 200)]) for _ in range(p)]
        r = [reach_of(c, x) for c, x in zip(cs, n)]
        u = sum(r) - sum(a[i * p + j] * r[i] * r[j] / 2 / max(cs[i]._max_reach, cs[j]._max_reach) for i in range(p) for j in range(p))
        if g.rng.random() < 0.4:
            u *= 1 + g.rng.uniform(-0.2, 0.2)
        pts.append((n, u))
    return pts


@lemma(props=["C12"], types=dict(curves=CURVES, a=Array(1), pts=List(Real)), symbolic=False, max_size=6,
       gen=dict(curves=gen_curves, a=gen_feasible, pts=gen_points))
def fit_is_least_squares(curves, a, pts):
    p = len(curves)
    s = PairwiseUnionReachSurface(curves, [ReachPoint(n, [u]) for n, u in pts])
    s._fit()
    b = np.array(s._a)

    def loss(v):
        s._a = v
        return sum((s.by_impressions(n).reach(1) - u) ** 2 for n, u in pts)
    check("fitted matrix is feasible", bool((b >= -1e-4).all() and (b.reshape(p, p).sum(axis=0) <= 1 + 1e-4).all()
                                            and (np.abs(np.diag(b.reshape(p, p))) <= 1e-4).all()
                                            and (np.abs(b.reshape(p, p) - b.reshape(p, p).T) <= 1e-4).all()))
    scale = 1 + sum(u ** 2 for n, u in pts)
    best = loss(b)
    check("no worse than the matrix that made the points", best <= loss(a) + 1e-5 * scale)
    for t in (0.1, 0.5):
        check("no worse on the segment towards it", best <= loss((1 - t) * b + t * a) + 1e-5 * scale)
    check("no worse than no overlap", best <= loss(0 * b) + 1e-5 * scale)
