"""Assumed contract of the (absent) dependency.

A sketch is the multiset of the ids added to it; merging adds multiplicities.  The estimator may return anything
(`HOOK.estimates`, one number per frequency 1..max_freq), and reports the budgets it was constructed with."""


class HOOK(object):
    """what the harness injects and records"""
    estimates = None      # callable (sketch, max_freq) -> list of max_freq numbers
    built = []            # estimators constructed


class ExponentialSameKeyAggregator(object):
    def __init__(self, length, decay_rate, random_seed):
        self.length, self.decay_rate, self.random_seed = length, decay_rate, random_seed
        self.counts = {}

    def add_ids(self, ids):
        for i in ids:
            self.counts[i] = self.counts.get(i, 0) + 1

    def add(self, i):
        self.add_ids([i])

    def merged(self, b):
        r = ExponentialSameKeyAggregator(self.length, self.decay_rate, self.random_seed)
        r.counts = dict(self.counts)
        for i, n in b.counts.items():
            r.counts[i] = r.counts.get(i, 0) + n
        return r

    def estimate(self, max_freq):
        if HOOK.estimates is not None:
            return HOOK.estimates(self, max_freq)
        return [sum(1 for n in self.counts.values() if n >= k) for k in range(1, max_freq + 1)]


class StandardizedHistogramEstimator(object):
    def __init__(self, max_freq=10, reach_noiser_class=None, frequency_noiser_class=None, reach_epsilon=None,
                 frequency_epsilon=None, reach_delta=None, frequency_delta=None, reach_noiser_kwargs=None,
                 frequency_noiser_kwargs=None):
        self.max_freq = max_freq
        self.reach_noiser_class, self.frequency_noiser_class = reach_noiser_class, frequency_noiser_class
        self.reach_epsilon, self.frequency_epsilon = reach_epsilon, frequency_epsilon
        self.reach_delta, self.frequency_delta = reach_delta, frequency_delta
        HOOK.built.append(self)

    @staticmethod
    def merge_two_sketches(a, b):
        return a.merged(b)

    def estimate_cardinality(self, sketch):
        self.sketch = sketch
        return sketch.estimate(self.max_freq)

    def output_privacy_parameters(self):
        return [(self.reach_noiser_class, self.reach_epsilon, self.reach_delta),
                (self.frequency_noiser_class, self.frequency_epsilon, self.frequency_delta)]
