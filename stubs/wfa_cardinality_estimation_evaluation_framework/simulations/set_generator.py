"""Assumed contract of the (absent) dependency: iterating a set generator yields, per requested size, an array of
that many distinct ids."""
from .set_generator_base import SetGeneratorBase

ORDER_ORIGINAL = 'original'
ORDER_REVERSED = 'reversed'
ORDER_RANDOM = 'random'
CORRELATED_SETS_ALL = 'all'
CORRELATED_SETS_ONE = 'one'


class HOOK(object):
    built = []


class IndependentSetGenerator(SetGeneratorBase):
    def __init__(self, universe_size, set_sizes, random_state):
        self.universe_size, self.set_sizes, self.random_state = universe_size, list(set_sizes), random_state
        HOOK.built.append(dict(kind="independent", universe_size=universe_size, set_sizes=list(set_sizes)))

    def __iter__(self):
        for s in self.set_sizes:
            yield self.random_state.permutation(self.universe_size)[:s]


class SequentiallyCorrelatedSetGenerator(SetGeneratorBase):
    def __init__(self, order, correlated_sets, shared_prop, set_sizes, random_state):
        self.set_sizes, self.shared_prop = list(set_sizes), shared_prop
        HOOK.built.append(dict(kind="sequential", order=order, correlated_sets=correlated_sets, shared_prop=shared_prop,
                               set_sizes=list(set_sizes)))

    def __iter__(self):
        import numpy as np
        prev, nxt = [], 0
        for s in self.set_sizes:
            k = min(int(s * self.shared_prop), len(prev), s)
            cur = list(prev[:k]) + list(range(nxt, nxt + s - k))
            nxt += s - k
            prev = cur
            yield np.array(cur, dtype=int)
