"""Closed-form bootstrap of the k-inflated model (C10)."""
from pyvc_dsl import *
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel

G = dict(I=lambda g: g.rng.choice([g.rng.randint(2, 100), g.real(1, 1000), 10.0 ** g.rng.randint(0, 7)]),
         R=lambda g: g.rng.choice([g.args["I"] * g.rng.random(), g.args["I"] * 0.5, g.args["I"] - 0.01, g.args["I"] - 1, g.args["I"]]),
         N=lambda g: g.rng.choice([g.args["I"] * g.rng.random(), g.args["R"] * (1 + g.rng.random() * 3), g.args["I"] * 2]) if "R" in g.args else g.real(1, 500),
         beta=lambda g: g.rng.choice([g.real(0.01, 10), 0.5, 1.0, 3.0]),
         s=lambda g: g.rng.choice([1.0, 1.5, 2.0, 1.01, g.real(1, 5), 0.5, 0.999]))


def model():
    return KInflatedGammaPoissonModel([ReachPoint([2], [1])])


@lemma(props=["C10"], types=dict(I=Real, N=Real, beta=Real), gen=G)
def reach_formula(I, N, beta):
    assume(I > 0 and N > 0 and beta > 0)
    m = model()
    r = m._exponential_poisson_reach(I, N, beta)
    check("reach is positive", r > 0)
    check("reach is at most the audience", le(r, N))
    check("reach is at most the impressions", le(r, I) or I >= (beta + 1) * N)
    check("everybody is reached once the inventory is used up", implies(I >= (beta + 1) * N, lambda: r == N))


@lemma(props=["C10"], types=dict(I=Real, R=Real, N=Real), gen=G)
def beta_inverts_reach(I, R, N):
    assume(0 < R and R < I and R <= N and N > 0)
    assume(I * R - N * (I - R) > 0.001 * I)
    m = model()
    beta = m._exponential_poisson_beta(I, N, R)
    check("rate is not negative", beta >= 0)
    check("the rate reproduces the reach", close(m._exponential_poisson_reach(I, N, beta), R))


@lemma(props=["C10"], types=dict(I=Real, N=Real, beta=Real), gen=G)
def reach_inverts_beta(I, N, beta):
    """the rate is recovered from the reach it produces"""
    assume(I > 0 and N > 0 and beta > 0 and I < (beta + 1) * N)
    m = model()
    r = m._exponential_poisson_reach(I, N, beta)
    assume(I * r - N * (I - r) > 0.001)
    check("rate recovered", close(m._exponential_poisson_beta(I, N, r), beta))
    assume(I >= r + 0.001)
    check("audience recovered", close(m._exponential_poisson_N_from_beta(I, r, beta), N))


@lemma(props=["C10"], types=dict(I=Real, R=Real, beta=Real), gen=G)
def audience_inverts_reach(I, R, beta):
    assume(0 < R and R + 0.001 <= I and beta > 0)
    m = model()
    n = m._exponential_poisson_N_from_beta(I, R, beta)
    check("audience is positive", n > 0)
    assume(I < (beta + 1) * n)
    check("the audience reproduces the reach", close(m._exponential_poisson_reach(I, n, beta), R))


@lemma(props=["C10"], types=dict(I=Real, R=Real, s=Real), gen=G)
def scale_factor(I, R, s):
    assume(0 < R and R <= I)
    m = model()
    if s < 1:
        expect_raises(ValueError, lambda: m._exponential_poisson_N(I, R, s))
    elif I >= R + 0.001:
        n = m._exponential_poisson_N(I, R, s)
        check("audience at least the reach", le(R, n))
        beta = m._exponential_poisson_beta(I, n, R)
        check("mean frequency of the model is s times the observed one", close((beta + 1) * R, s * I))
        check("the point lies within the inventory", le(I, (beta + 1) * n))
        check("the pair reproduces the reach", close(m._exponential_poisson_reach(I, n, beta), R))
    else:
        check("audience far above a reach equal to the impressions", m._exponential_poisson_N(I, R, s) == 100 * R)
        check("same without the scale", m._exponential_poisson_N_from_beta(I, R, s) == 100 * R)


FIT = dict(i=lambda g: g.rng.choice([g.rng.randint(2, 20), g.rng.randint(2, 10 ** 5)]),
           kp=lambda g: sorted([g.rng.randint(1, max(1, g.args["i"] - (g.rng.random() < 0.8))) for _ in range(g.rng.randint(1, 6))], reverse=True),
           imin=lambda g: g.rng.choice([None, g.args["i"], g.args["i"] + 1, 3 * g.args["i"], g.args["i"] / 2]))


@lemma(props=["C10"], types=dict(i=Int, kp=List(Int), imin=Real), gen=FIT, symbolic=False)
def bootstrap_fit(i, kp, imin):
    assume(len(kp) >= 1 and kp[0] <= i)
    m = KInflatedGammaPoissonModel([ReachPoint([i], kp)])
    n, dist = m._fit_exponential_poisson_model(ReachPoint([i], kp), imin)
    need = i if imin is None else max(i, imin)
    beta = dist._beta
    check("positive audience", n > 0)
    check("exponential-Poisson distribution without inflation", dist._alpha == 1.0 and len(dist._a) == 0)
    check("inventory at least the required impressions", le(need, n * (beta + 1)))
    if kp[0] <= need - 1:
        check("the fit reproduces the reach at the required impressions", close(m._exponential_poisson_reach(need, n, beta), kp[0]))

