"""Assumed contract of the (absent) dependency: a pipeline applies its transforms in order to all elements."""


class DoFn(object):
    pass


class CombineFn(object):
    pass


class _T(object):
    def __rrshift__(self, label):
        return self

    def __ror__(self, left):
        return _C(self.expand(left.items if isinstance(left, _C) else []))


class _C(object):
    def __init__(self, items):
        self.items = items


class Create(_T):
    def __init__(self, items):
        self.src = list(items)

    def expand(self, _):
        return list(self.src)


class ParDo(_T):
    def __init__(self, fn, *a):
        self.fn, self.a = fn, a

    def expand(self, xs):
        return [y for x in xs for y in (self.fn.process(x, *self.a) or [])]


class Map(_T):
    def __init__(self, f):
        self.f = f

    def expand(self, xs):
        return [self.f(x) for x in xs]


class CombineGlobally(_T):
    def __init__(self, fn):
        self.fn = fn

    def expand(self, xs):
        accs = []
        for i in range(0, max(len(xs), 1), 2):
            acc = self.fn.create_accumulator()
            for x in xs[i:i + 2]:
                acc = self.fn.add_input(acc, x)
            accs.append(acc)
        return [self.fn.extract_output(self.fn.merge_accumulators(accs))]


class Pipeline(object):
    def __init__(self, options=None):
        self.options = options

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
