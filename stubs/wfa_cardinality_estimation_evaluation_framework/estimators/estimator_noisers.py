"""Assumed contract of the (absent) dependency: a noiser adds anything to its argument (`HOOK.noise`)."""
from .base import EstimateNoiserBase


class HOOK(object):
    noise = None          # callable (epsilon) -> number to add
    built = []            # epsilons noisers were constructed with
    applied = []          # epsilons noise was added with


class GeometricEstimateNoiser(EstimateNoiserBase):
    def __init__(self, epsilon, random_state=None):
        self.epsilon = epsilon
        HOOK.built.append(epsilon)

    def __call__(self, x):
        HOOK.applied.append(self.epsilon)
        return x + (HOOK.noise(self.epsilon) if HOOK.noise is not None else 0)
