"""Framed execution: a lemma with frame=[modules] executes only the functions of those modules (and of the contracts); every other
call is an unknown: it returns an unknown value, may raise inside a try block, and is assumed not to touch the ghost state of the
contract (recorded as trusted).  Unknown values of a few pure functions (digests, path operations, string methods) are equal for
equal arguments."""
import hashlib
import z3
from .values import *

PURE = ("hashlib.", "os.path.", "posixpath.", "str.", "md5", "sha")


def key_of(v):
    if isinstance(v, Opq) and v.tag == "any":
        return v.data["key"]
    if isinstance(v, S):
        return str(v.v) if v.conc else v.v.sexpr()
    return None


def unknown(e, key=None):
    if key is None:
        key = e.name("any")
    return Opq("any", dict(key=key))


def call(e, name, args, kwargs, node):
    """the call of an unknown function"""
    if "logging." in name:
        return NONE
    e.trusted_used.add("unknown calls do not touch the contract's ghost state: " + name.split("(")[0].split("!")[0])
    if e.try_stack and any(c in ("Exception", "BaseException") for cs in e.try_stack for c in cs):
        st = (len(e.try_stack), e.ghost_ops)
        if e.raise_epoch != st:
            e.raise_epoch = st
            if e.decide(e.fresh("raises", z3.BoolSort())):
                from .engine import PyRaise
                raise PyRaise("Exception", node)
    ks = [key_of(a) for a in args]
    if any(p in name for p in PURE) and not kwargs and all(k is not None for k in ks):
        return unknown(e, f"{name}({','.join(ks)})")
    return unknown(e)


def text(e, v):
    k = v.data["key"]
    t = z3.Const("text!" + hashlib.md5(k.encode()).hexdigest()[:16], z3.StringSort())
    if k.endswith(".hexdigest()"):
        e.trusted_used.add("a hexdigest is a non-empty text of the characters 0-9a-f")
        e.assume(z3.InRe(t, z3.Plus(z3.Union(z3.Range("0", "9"), z3.Range("a", "f")))))
    return S(t)


def is_any(v):
    return isinstance(v, Opq) and v.tag == "any"


def some(args, kwargs):
    return any(is_any(a) for a in args) or any(is_any(a) for a in kwargs.values())
