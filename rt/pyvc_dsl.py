"""Run-time meaning of the contract language (the symbolic one is /verif/pyvc/dsl.py).

Under this module a contract is executed on concrete values against the real code.
"""
import math

Int, Nat, Real, Bool, Str = ("int",), ("nat",), ("real",), ("bool",), ("str",)


def List(t): return ("list", t)
def TupleList(t): return ("tuplelist", t)
def Tuple(*ts): return ("tuple", list(ts))
def Dict(k, v): return ("dict", k, v)
def Set(k): return ("set", k)
def Array(nd=1, kind="real"): return ("array", nd, kind)
def Fun(*ts): return ("fun", list(ts[:-1]), ts[-1])
def Obj(ref, **kw): return ("obj", ref, kw)
def Const(v): return ("const", v)
def Made(fn, **kw): return ("made", fn, kw)
def NT(ref, *ts): return ("nt", ref, list(ts))


class Skip(Exception):
    """a precondition of the contract does not hold for this input"""


class Failed(Exception):
    """a postcondition does not hold for this input"""


class RT:
    lemmas = []
    ghosts = []
    target = None
    depth = 0
    checks = 0


def lemma(props=(), types=None, gen=None, **kw):
    def w(f):
        RT.lemmas.append(dict(name=f.__name__, f=f, props=list(props), types=types or {}, gen=gen or {}, kind="lemma",
                              file=f.__code__.co_filename, **kw))
        return f
    return w


def contract(qual, props=(), types=None, gen=None, **kw):
    def w(f):
        RT.lemmas.append(dict(name=f.__name__, f=f, props=list(props), types=types or {}, gen=gen or {}, kind="contract",
                              qual=qual, file=f.__code__.co_filename, **kw))
        return f
    return w


def assume(p):
    if not p:
        raise Skip()


def check(name, p):
    RT.checks += 1
    if not p:
        raise Failed(name)


def known(name, p):
    if not p:
        raise Failed("stated fact does not hold: " + name)


def body(*a, **k):
    return RT.target(*a, **k)


def forall(lo, hi, f):
    return all(f(j) for j in range(lo, hi))


def exists(lo, hi, f):
    return any(f(j) for j in range(lo, hi))


def forall_int(cands, f):
    s = set(cands)
    s |= {c + 1 for c in s} | {c - 1 for c in s} | {0}
    return all(f(c) for c in s)


def forall_real(cands, f):
    s = set(cands)
    s |= {c + 0.5 for c in s} | {c - 0.5 for c in s} | {0.0}
    return all(f(c) for c in s)


def forall_keys(c, f):
    return all(f(k) for k in list(c))


def count(lo, hi, f):
    return sum(1 for j in range(lo, hi) if f(j))


def total(lo, hi, f):
    return sum(f(j) for j in range(lo, hi))


def product(n, f):
    r = 1
    for j in range(n):
        r = r * f(j)
    return r


def count_keys(c, f):
    return sum(1 for k in list(c) if f(k))


def count_where(cands, f):
    return sum(1 for v in set(cands) if f(v))


def implies(p, q):
    if not p:
        return True
    return q() if callable(q) else q


def iff(a, b):
    return bool(a) == bool(b)


TOL = 1e-9


def eq(a, b):
    """equality; floats up to rounding"""
    import numpy as np
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)) or a is None or b is None:
        return a == b
    try:
        if a == b:
            return True
        if a != a and b != b:
            return True
        return math.isclose(a, b, rel_tol=TOL, abs_tol=TOL)
    except TypeError:
        return a == b


def close(a, b, tol=1e-6):
    """equality over the reals; at run time up to the given relative tolerance"""
    return a == b or math.isclose(a, b, rel_tol=tol, abs_tol=tol)


def le(a, b):
    return a <= b or eq(a, b)


def lt(a, b):
    """strict over the reals; at run time up to rounding"""
    return a < b or eq(a, b)


def ghost(obj, arg):
    for o, args in RT.ghosts:
        if o is obj:
            return args[arg]
    raise KeyError("no recorded constructor arguments")


def check_induct(name, lo, hi, f, down=False, aid=None, aid2=None):
    check(name, forall(lo, hi, f))


def expect_raises(exc, thunk):
    RT.checks += 1
    try:
        r = thunk()
    except exc:
        return
    except Skip:
        raise
    except Exception as x:
        raise Failed("expected %s, got %s: %s" % (exc.__name__, type(x).__name__, x))
    raise Failed("expected %s, got result %r" % (exc.__name__, r))


def hint(*a):
    pass


def named(x):
    return x
