"""Value domain of the symbolic interpreter.  Floats are mathematical reals, ints are mathematical."""
from fractions import Fraction
import itertools
import z3


class Unsupported(Exception):
    pass


class S:
    """Scalar: python bool/int/Fraction/str, or a z3 Bool/Int/Real/String term."""
    __slots__ = ("v",)

    def __init__(self, v):
        if isinstance(v, float):
            v = Fraction(repr(v)) if v == v and abs(v) != float("inf") else v
        self.v = v

    def __repr__(self):
        return f"S({self.v})"

    @property
    def conc(self):
        return not isinstance(self.v, z3.ExprRef)

    @property
    def kind(self):
        v = self.v
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, Fraction):
            return "real"
        if isinstance(v, str):
            return "str"
        if isinstance(v, float):
            return "inf"
        s = v.sort()
        if s == z3.BoolSort():
            return "bool"
        if s == z3.IntSort():
            return "int"
        if s == z3.RealSort():
            return "real"
        return "str"


class NoneV:
    def __repr__(self):
        return "None"


NONE = NoneV()


class Tup:
    def __init__(self, items, cls=None):
        self.items = list(items)
        self.cls = cls  # ClassInfo of a NamedTuple, or None

    def __repr__(self):
        return f"Tup({self.items})"


class CSeq:
    """Sequence of concrete length."""
    def __init__(self, items, kind="list"):
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return f"CSeq({self.items})"


class Seq:
    """Sequence of symbolic length: template el over the index constant ix."""
    def __init__(self, n, ix, el, kind="list", perm=None):
        self.n, self.ix, self.el, self.kind, self.perm = n, ix, el, kind, perm

    def __repr__(self):
        return f"Seq(n={self.n}, el={self.el})"


class GSeq:
    """Filtered sequence: elements el(ix) for 0<=ix<n with guard(ix) (z3 Bool), in order."""
    def __init__(self, n, ix, guard, el, kind="list", perm=None):
        self.n, self.ix, self.guard, self.el, self.kind, self.perm = n, ix, guard, el, kind, perm


class Flat:
    """Concatenation of blocks block(ix) (a Seq/CSeq/GSeq template) for 0<=ix<n."""
    def __init__(self, n, ix, block, kind="list"):
        self.n, self.ix, self.block, self.kind = n, ix, block, kind


class MapV:
    """Finite map: template over key constant kx. order: enumeration (ek, pos, size) once iterated."""
    def __init__(self, kx, dom, val, default=None, order=None, card=None):
        self.kx, self.dom, self.val, self.default, self.order, self.card = kx, dom, val, default, order, card


class CMap:
    """Map with concrete list of (key, value) pairs, keys concrete scalars."""
    def __init__(self, pairs, default=None):
        self.pairs = list(pairs)
        self.default = default


class SetV:
    def __init__(self, kx, mem, order=None, card=None):
        self.kx, self.mem, self.order, self.card = kx, mem, order, card


class Nd:
    """n-dimensional array of scalars: shape is a list of ints/z3 Int, template over ixs."""
    def __init__(self, shape, ixs, el):
        self.shape, self.ixs, self.el = list(shape), list(ixs), el

    def __repr__(self):
        return f"Nd({self.shape},{self.el})"


class ObjVal:
    """Frozen object."""
    def __init__(self, cls, fields, ghost=None):
        self.cls, self.fields, self.ghost = cls, fields, ghost

    def __repr__(self):
        return f"ObjVal({self.cls.name})"


class Ref:
    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"Ref({self.cid})"


class ListCell:
    def __init__(self, seq):
        self.seq = seq


class DictCell:
    def __init__(self, m):
        self.m = m


class SetCell:
    def __init__(self, s):
        self.s = s


class NdCell:
    def __init__(self, nd):
        self.nd = nd


class ObjCell:
    def __init__(self, cls, fields, ghost=None):
        self.cls, self.fields, self.ghost = cls, fields, ghost


class FuncV:
    """Repo or contract function (AST) with closure env."""
    def __init__(self, node, mod, env=None, cls=None, name=None, kind="func"):
        self.node, self.mod, self.env, self.cls, self.kind = node, mod, env, cls, kind
        self.name = name or getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        c = self.cls.name + "." if self.cls else ""
        return f"{self.mod.short}:{c}{self.name}"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Ext:
    """External name such as numpy.sum."""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"


class BMeth:
    """Built-in method on a value (list.append, dict.items...)."""
    def __init__(self, obj, name, node=None):
        self.obj, self.name, self.node = obj, name, node


class UFun:
    """Uninterpreted pure function parameter of a contract (Fun type)."""
    def __init__(self, f, kinds):
        self.f, self.kinds = f, kinds


class Opq:
    """Opaque external object (random generator, file ...)."""
    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data or {}

    def __repr__(self):
        return f"Opq({self.tag})"


# ---------------------------------------------------------------- helpers
def is_z(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    """to z3 Int (python int / z3 / S)"""
    if isinstance(x, S):
        x = x.v
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return z3.IntVal(x.numerator)
        raise Unsupported("real where int expected")
    if is_z(x):
        if x.sort() == z3.BoolSort():
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if x.sort() == z3.IntSort():
            return x
        if x.sort() == z3.RealSort():
            if z3.is_to_real(x):
                return x.arg(0)
            raise Unsupported("real where int expected")
    raise Unsupported(f"not an int: {x!r}")


def zr(x):
    if isinstance(x, S):
        x = x.v
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x)
    if is_z(x):
        if x.sort() == z3.BoolSort():
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if x.sort() == z3.IntSort():
            return z3.ToReal(x)
        if x.sort() == z3.RealSort():
            return x
    raise Unsupported(f"not a number: {x!r}")


def zs(x):
    if isinstance(x, S):
        x = x.v
    if isinstance(x, str):
        return z3.StringVal(x)
    if is_z(x):
        return x
    raise Unsupported(f"not a string: {x!r}")


def zb(x):
    if isinstance(x, S):
        x = x.v
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_z(x) and x.sort() == z3.BoolSort():
        return x
    raise Unsupported(f"not a bool: {x!r}")


def zany(s):
    k = s.kind
    return {"int": zi, "real": zr, "bool": zb, "str": zs}[k](s)


def vmap(v, f):
    """Apply f to every z3 term inside value v."""
    if isinstance(v, S):
        return v if v.conc else S(f(v.v))
    if v is None or isinstance(v, (NoneV, FuncV, Ext, UFun, Opq, Bound, BMeth)):
        if isinstance(v, Bound):
            return Bound(v.func, vmap(v.self_, f))
        return v
    if isinstance(v, Tup):
        return Tup([vmap(x, f) for x in v.items], v.cls)
    if isinstance(v, CSeq):
        return CSeq([vmap(x, f) for x in v.items], v.kind)
    if isinstance(v, Seq):
        return Seq(vterm(v.n, f), v.ix, vmap(v.el, f), v.kind, v.perm and vmap(v.perm, f))
    if isinstance(v, GSeq):
        return GSeq(vterm(v.n, f), v.ix, f(v.guard), vmap(v.el, f), v.kind, v.perm and vmap(v.perm, f))
    if isinstance(v, Flat):
        return Flat(vterm(v.n, f), v.ix, vmap(v.block, f), v.kind)
    if isinstance(v, MapV):
        return MapV(v.kx, f(v.dom), vmap(v.val, f), v.default, vord(v.order, f), v.card)
    if isinstance(v, CMap):
        return CMap([(k, vmap(x, f)) for k, x in v.pairs], v.default)
    if isinstance(v, SetV):
        return SetV(v.kx, f(v.mem), vord(v.order, f), v.card)
    if isinstance(v, Nd):
        return Nd([vterm(s, f) for s in v.shape], v.ixs, vmap(v.el, f))
    if isinstance(v, ObjVal):
        g = {k: vmap(x, f) for k, x in v.ghost.items()} if v.ghost else v.ghost
        return ObjVal(v.cls, {k: vmap(x, f) for k, x in v.fields.items()}, g)
    if isinstance(v, Ref):
        return v
    raise Unsupported(f"vmap {type(v).__name__}")


def vord(o, f):
    if o is None:
        return None
    jx, ek, px, pos, n = o
    return (jx, f(ek), px, f(pos), f(n))


def vterm(t, f):
    return f(t) if is_z(t) else t


def vsub(v, *pairs):
    ps = [(a, b) for a, b in pairs]
    return vmap(v, lambda t: z3.substitute(t, *ps))


def has_ref(v):
    if isinstance(v, Ref):
        return True
    if isinstance(v, (Tup, CSeq)):
        return any(has_ref(x) for x in v.items)
    if isinstance(v, (Seq, GSeq)):
        return has_ref(v.el)
    if isinstance(v, MapV):
        return has_ref(v.val)
    if isinstance(v, CMap):
        return any(has_ref(x) for _, x in v.pairs)
    if isinstance(v, ObjVal):
        return any(has_ref(x) for x in v.fields.values())
    if isinstance(v, Bound):
        return has_ref(v.self_)
    return False


def terms_of(v):
    out = []
    vmap(v, lambda t: (out.append(t), t)[1])
    return out
