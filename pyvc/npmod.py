"""Model of the numpy subset used by the repository: arrays as index templates over mathematical reals."""
import ast
from fractions import Fraction
import z3
from .values import *
from .engine import *
from .engine import contains_term
from . import theory as T
from .interp import PyF

X = {}
CONST = {"numpy.inf": S(float("inf")), "numpy.Inf": S(float("inf")), "numpy.nan": Opq("nan"), "numpy.NaN": Opq("nan"),
         "numpy.newaxis": NONE, "numpy.pi": S(Fraction(repr(3.141592653589793)))}


def ex(*names):
    def d(f):
        for n in names:
            X[n] = PyF(f, n)
        return f
    return d


def isarr(e, v):
    return isinstance(e.content(v), Nd)


def new(e, nd):
    return e.alloc(NdCell(nd))


def dimeq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zi(a).eq(zi(b)) or z3.simplify(zi(a) - zi(b)).eq(z3.IntVal(0))


def to_nd(e, v):
    c = e.content(v)
    if isinstance(c, Nd):
        return c
    if isinstance(c, S):
        return Nd([], [], c)
    if isinstance(c, Tup) or e.is_seq(c):
        s = e.to_seq(c)
        if isinstance(s, Flat):
            b = s.block
            if isinstance(b, Seq) and isinstance(b.el, S) and not contains_term(zi(b.n), s.ix):
                base = Nd([zi(s.n), b.n], [s.ix, b.ix], b.el)
                return flatten(e, base)
            s = e.to_plain(s)
        if isinstance(s, GSeq):
            s = e.to_plain(s)
        if isinstance(s, CSeq):
            if not s.items:
                return Nd([0], [e.const("ix")], S(Fraction(0)))
            ix = e.const("ix")
            els = [e.content(x) for x in s.items]
            if all(isinstance(x, S) for x in els):
                return Nd([len(els)], [ix], e.seq_get_raw(CSeq(els), ix) if len(els) > 1 else els[0])
            nds = [to_nd(e, x) for x in els]
            n0 = nds[0]
            el = n0.el
            out = vsub(nds[-1].el, *zip(nds[-1].ixs, n0.ixs))
            for i in range(len(nds) - 2, -1, -1):
                check_dims(e, n0.shape, nds[i + 1].shape)
                out = e.ite(ix == i, vsub(nds[i].el, *zip(nds[i].ixs, n0.ixs)), out)
            return Nd([len(nds)] + n0.shape, [ix] + n0.ixs, out)
        el = e.content(s.el)
        if isinstance(el, S):
            r = Nd([zi(s.n)], [s.ix], el)
            if hasattr(s, "split"):
                r.split = s.split
            return r
        inner = to_nd(e, el)
        for d in inner.shape:
            if is_z(d) and contains_term(d, s.ix):
                raise Unsupported("ragged array")
        return Nd([zi(s.n)] + inner.shape, [s.ix] + inner.ixs, inner.el)
    raise Unsupported(f"array of {type(c).__name__}")


def check_dims(e, a, b):
    if len(a) != len(b):
        raise Unsupported("array rank mismatch")
    for x, y in zip(a, b):
        if not dimeq(x, y):
            e.require(zi(x) == zi(y), "ValueError", "array dimensions agree", None)


def bcast(e, a, b, f, node=None):
    """elementwise f with broadcasting"""
    na, nb = len(a.shape), len(b.shape)
    n = max(na, nb)
    ixs, shape, sa, sb = [], [], [], []
    for d in range(n):
        ia, ib = d - (n - na), d - (n - nb)
        da = a.shape[ia] if ia >= 0 else None
        db = b.shape[ib] if ib >= 0 else None
        ix = e.const("ix")
        ixs.append(ix)
        if da is None:
            shape.append(db)
        elif db is None:
            shape.append(da)
        elif dimeq(da, db):
            shape.append(da)
        elif isinstance(da, int) and da == 1:
            shape.append(db)
        elif isinstance(db, int) and db == 1:
            shape.append(da)
        else:
            e.require(zi(da) == zi(db), "ValueError", "array dimensions agree", node)
            shape.append(da)
        one = lambda x: isinstance(x, int) and x == 1
        if da is not None:
            sa.append((a.ixs[ia], z3.IntVal(0) if one(da) and not one(shape[-1]) else ix))
        if db is not None:
            sb.append((b.ixs[ib], z3.IntVal(0) if one(db) and not one(shape[-1]) else ix))
    r = Nd(shape, ixs, f(vsub(a.el, *sa), vsub(b.el, *sb)))
    if len(shape) == 1 and n == 1:
        # keep a flattened view when one side has it and the other is scalar or has the same
        s1, s2 = getattr(a, "split", None), getattr(b, "split", None)
        if s1 is not None and (na == 1 and nb == 0):
            base = s1
            r.split = Nd(base.shape, base.ixs, f(base.el, b.el))
        elif s2 is not None and (nb == 1 and na == 0):
            base = s2
            r.split = Nd(base.shape, base.ixs, f(a.el, base.el))
        elif s1 is not None and s2 is not None and all(dimeq(x, y) for x, y in zip(s1.shape, s2.shape)):
            r.split = Nd(s1.shape, s1.ixs, f(s1.el, vsub(s2.el, *zip(s2.ixs, s1.ixs))))
    return r


def lift(e, v):
    c = e.content(v)
    if isinstance(c, (Nd, S)):
        return to_nd(e, c)
    if e.is_seq(c) or isinstance(c, Tup):
        return to_nd(e, c)
    return None


def binop(e, op, a, b, node):
    if not (isarr(e, a) or isarr(e, b)):
        return None
    x, y = lift(e, a), lift(e, b)
    if x is None or y is None:
        return None
    if isinstance(op, ast.MatMult):
        return matmul(e, x, y)
    if isinstance(op, (ast.Div, ast.FloorDiv)):
        # numpy division by zero yields inf/nan with a warning, not an exception: require nonzero denominators
        def f(p, q):
            if q.conc and q.v != 0:
                return e.sbin(op, p, q, node)
            return S(zr(p) / zr(q))
        r = bcast(e, x, y, f, node)
        yy = bcast(e, x, y, lambda p, q: q, node)
        if not (yy.el.conc and yy.el.v != 0) and not e.spec:
            g = zr(yy.el) != 0
            rng = z3.And(*[z3.And(0 <= i, i < zi(s)) for i, s in zip(yy.ixs, yy.shape)]) if yy.shape else None
            fml = z3.ForAll(yy.ixs, z3.Implies(rng, g)) if yy.ixs else g
            e.require(fml, "ZeroDivisionError", "array division", node)
        return new(e, r)
    return new(e, bcast(e, x, y, lambda p, q: e.sbin(op, p, q, node), node))


def unop(e, kind, a):
    c = e.content(a)
    if not isinstance(c, Nd):
        return None
    if kind == "neg":
        return elementwise(e, c, e.neg)
    if kind == "invert":
        return elementwise(e, c, e.not_)
    return None


def elementwise(e, v, f):
    c = to_nd(e, v)
    r = Nd(c.shape, c.ixs, f(c.el))
    if hasattr(c, "split"):
        b = c.split
        r.split = Nd(b.shape, b.ixs, f(b.el))
    return new(e, r)


def cmp(e, op, a, b, node):
    if not (isarr(e, a) or isarr(e, b)):
        return None
    if isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
        return None
    x, y = lift(e, a), lift(e, b)
    if x is None or y is None:
        return None
    return new(e, bcast(e, x, y, lambda p, q: e.cmp(op, p, q, node), node))


def rows(e, c):
    ix = c.ixs[0]
    if len(c.shape) == 1:
        if isinstance(c.shape[0], int):
            return CSeq([vsub(c.el, (ix, z3.IntVal(i))) for i in range(c.shape[0])], "gen")
        s = Seq(c.shape[0], ix, c.el, "gen")
        if hasattr(c, "split"):
            s.split = c.split
        return s
    inner = lambda i: Nd(c.shape[1:], c.ixs[1:], vsub(c.el, (ix, i)))
    if isinstance(c.shape[0], int):
        return CSeq([inner(z3.IntVal(i)) for i in range(c.shape[0])], "gen")
    return Seq(c.shape[0], ix, Nd(c.shape[1:], c.ixs[1:], c.el), "gen")


def divmod_simplify(e, v):
    """(i*c + j) div c -> i and mod -> j when 0 <= j < c is implied by the path"""
    def f(t):
        return dm(e, t)
    return vmap(v, f)


def dm(e, t):
    todo = []
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                todo.append(x)
            stack.extend(x.children())
    pairs = []
    for x in todo:
        r = split_div(e, x.arg(0), x.arg(1))
        if r is not None:
            pairs.append((x, r[0] if x.decl().kind() == z3.Z3_OP_IDIV else r[1]))
    return z3.substitute(t, *pairs) if pairs else t


def split_div(e, x, c):
    """x = i*c + j with 0<=j<c on this path"""
    terms = []

    def flat(y, neg=False):
        if z3.is_add(y):
            for z in y.children():
                flat(z, neg)
        else:
            terms.append(y)
    flat(x)
    for k, y in enumerate(terms):
        q = None
        if z3.is_mul(y) and y.num_args() == 2:
            if y.arg(0).eq(c):
                q = y.arg(1)
            elif y.arg(1).eq(c):
                q = y.arg(0)
        elif y.eq(c):
            q = z3.IntVal(1)
        if q is None:
            continue
        rest = [z for i, z in enumerate(terms) if i != k]
        j = z3.IntVal(0) if not rest else (rest[0] if len(rest) == 1 else z3.Sum(*rest))
        if not e.check_feasible(z3.Not(z3.And(0 <= j, j < c))):
            return q, j
    if len(terms) == 1 and not e.check_feasible(z3.Not(z3.And(0 <= x, x < c))):
        return z3.IntVal(0), x
    return None


def index_term(e, k, n, node):
    if isinstance(k, S) and k.kind == "real":
        raise Unsupported("float index")
    kk = e.norm_index(n, k.v if k.conc else zi(k))
    if isinstance(kk, int) and isinstance(n, int):
        if not 0 <= kk < n:
            e.require(False, "IndexError", "array index in range", node)
            raise EndPath()
        return z3.IntVal(kk)
    e.require(z3.And(zi(kk) >= 0, zi(kk) < zi(n)), "IndexError", "array index in range", node)
    return zi(kk)


def getitem(e, o, idx, node):
    c = e.content(o)
    sub, shape, ixs = [], [], []
    if len(idx) == 1 and idx[0][0] == "ix" and not isinstance(idx[0][1], S):
        # fancy index by an integer sequence or a boolean mask
        k = to_nd(e, idx[0][1])
        if len(k.shape) != 1:
            raise Unsupported("fancy index rank")
        if k.el.kind == "bool":
            raise Unsupported("boolean mask")
        kt = k.el
        e.generic(k.ixs[0], [0 <= k.ixs[0], k.ixs[0] < zi(k.shape[0])], lambda: index_term(e, kt, c.shape[0], node))
        el = vsub(c.el, (c.ixs[0], zi(kt)))
        return new(e, Nd([k.shape[0]] + c.shape[1:], [k.ixs[0]] + c.ixs[1:], el))
    if len(idx) > len(c.shape):
        raise Unsupported("too many indices")
    for d, it in enumerate(idx):
        n = c.shape[d]
        if it[0] == "ix":
            if isinstance(it[1], NoneV):
                raise Unsupported("newaxis")
            sub.append((c.ixs[d], index_term(e, it[1], n, node)))
        else:
            s = e.seq_slice(Seq(zi(n), c.ixs[d], S(c.ixs[d])), it[1], it[2], it[3], node)
            ix = e.const("ix")
            shape.append(s.n if not isinstance(n, int) or not z3.is_int_value(z3.simplify(zi(s.n))) else z3.simplify(zi(s.n)).as_long())
            ixs.append(ix)
            sub.append((c.ixs[d], zi(vsub(s.el, (s.ix, ix)))))
    for d in range(len(idx), len(c.shape)):
        shape.append(c.shape[d])
        ixs.append(c.ixs[d])
    el = divmod_simplify(e, vsub(c.el, *sub))
    if not shape:
        return el
    r = Nd(shape, ixs, el)
    r.view = True
    return r


def setitem(e, c, idx, v, node):
    if getattr(c, "view", False):
        raise Unsupported("write through an array view")
    conds, sub, free = [], [], []
    for d, it in enumerate(idx):
        if it[0] == "ix":
            k = index_term(e, it[1], c.shape[d], node)
            conds.append(c.ixs[d] == k)
            sub.append((c.ixs[d], k))
        else:
            if not all(isinstance(x, NoneV) for x in it[1:]):
                raise Unsupported("slice assignment")
            free.append(d)
    free += list(range(len(idx), len(c.shape)))
    vn = to_nd(e, v)
    if vn.shape:
        if len(vn.shape) != len(free):
            raise Unsupported("array assignment rank")
        val = vsub(vn.el, *[(i, c.ixs[d]) for i, d in zip(vn.ixs, free)])
    else:
        val = vn.el
    old = vsub(c.el, *sub) if sub else c.el
    if isinstance(old, S) and not old.conc and not val.conc and z3.is_app(old.v) and old.v.decl().kind() == z3.Z3_OP_UNINTERPRETED and not free:
        val = S(z3.substitute(val.v, (old.v, c.el.v))) if not c.el.conc else val
    cond = z3.And(*conds) if len(conds) > 1 else (conds[0] if conds else z3.BoolVal(True))
    if c.el.kind == "int" and val.kind == "real":
        raise Unsupported("float stored in an int array")
    if c.el.kind == "real" and val.kind == "int":
        val = S(Fraction(val.v)) if val.conc else S(zr(val))
    return Nd(c.shape, c.ixs, e.ite(cond, val, c.el))


def attr(e, o, c, name):
    if name == "shape":
        return Tup([S(s) for s in c.shape])
    if name == "size":
        r = S(1)
        for s in c.shape:
            r = e.sbin(ast.Mult(), r, S(s))
        return r
    if name == "T":
        return transpose(e, c)
    if name == "ndim":
        return S(len(c.shape))
    return None


def transpose(e, c):
    if len(c.shape) == 1:
        return new(e, c)
    return new(e, Nd(c.shape[::-1], c.ixs[::-1], c.el))


def total(e, c):
    if hasattr(c, "split"):
        return total(e, c.split)
    r = c.el
    for ix, n in reversed(list(zip(c.ixs, c.shape))):
        if isinstance(n, int) and n <= 16:
            acc = S(0)
            for i in range(n):
                acc = e.sbin(ast.Add(), acc, vsub(r, (ix, z3.IntVal(i))))
            r = acc
        else:
            j = e.const("sj")
            r = e.sum_over(j, vsub(r, (ix, j)), n)
    return r


def sum_axis(e, c, ax):
    if ax < 0:
        ax += len(c.shape)
    if len(c.shape) == 1:
        return total(e, c)
    ix, n = c.ixs[ax], c.shape[ax]
    r = total(e, Nd([n], [ix], c.el))
    return new(e, Nd(c.shape[:ax] + c.shape[ax + 1:], c.ixs[:ax] + c.ixs[ax + 1:], r))


def sum_stack(e, s, el):
    """sum of a sequence of arrays"""
    if isinstance(s, (Flat,)):
        s = e.to_plain(s)
    if isinstance(s, GSeq):
        t = e.ite(s.guard, el.el, S(Fraction(0)))
    else:
        t = el.el
    e.require(zi(s.n) > 0, "TypeError", "sum of at least one array", None)
    j = e.const("sj")
    r = Nd(el.shape, el.ixs, e.sum_over(j, vsub(t, (s.ix, j)), s.n))
    if hasattr(el, "split"):
        b = el.split
        r.split = Nd(b.shape, b.ixs, e.sum_over(j, vsub(b.el, (s.ix, j)), s.n))
    return r


def flatten(e, c):
    if len(c.shape) == 1:
        return c
    if len(c.shape) != 2:
        raise Unsupported("flatten rank")
    r_, c_ = c.shape
    if isinstance(c_, int) and c_ == 1:
        return Nd([r_], [c.ixs[0]], vsub(c.el, (c.ixs[1], z3.IntVal(0))))
    if isinstance(r_, int) and r_ == 1:
        return Nd([c_], [c.ixs[1]], vsub(c.el, (c.ixs[0], z3.IntVal(0))))
    ix = e.const("ix")
    cz = zi(c_)
    n = r_ * c_ if isinstance(r_, int) and isinstance(c_, int) else zi(r_) * cz
    r = Nd([n], [ix], vsub(c.el, (c.ixs[0], ix / cz), (c.ixs[1], ix % cz)))
    r.split = c
    return r


def cumsum_nd(e, c):
    if len(c.shape) != 1:
        raise Unsupported("cumsum rank")
    ix = c.ixs[0]
    if isinstance(c.shape[0], int) and c.shape[0] <= 16:
        acc, out = S(0), []
        for i in range(c.shape[0]):
            acc = e.sbin(ast.Add(), acc, vsub(c.el, (ix, z3.IntVal(i))))
            out.append(acc)
        return to_nd(e, CSeq(out))
    j = e.const("sj")
    t = vsub(c.el, (ix, j))
    k = e.const("ix")
    r = e.sum_over(j, t, k + 1) if not t.conc else e.sbin(ast.Mult(), S(k + 1), t)
    return Nd(c.shape, [k], r)


def cumsum_seq(e, v):
    c = cumsum_nd(e, to_nd(e, v))
    return rows(e, c)


def matmul(e, a, b):
    if len(a.shape) == 1 and len(b.shape) == 1:
        return inner(e, a, b)
    if len(a.shape) == 1:
        r = matmul_nd(e, Nd([1] + a.shape, [e.const("ix")] + a.ixs, a.el), b)
        return new(e, Nd(r.shape[1:], r.ixs[1:], r.el))
    if len(b.shape) == 1:
        r = matmul_nd(e, a, Nd(b.shape + [1], b.ixs + [e.const("ix")], b.el))
        return new(e, Nd(r.shape[:1], r.ixs[:1], r.el))
    return new(e, matmul_nd(e, a, b))


def matmul_nd(e, a, b):
    n, m = a.shape[1], b.shape[0]
    if not dimeq(n, m):
        e.require(zi(n) == zi(m), "ValueError", "matmul dimensions", None)
    k = e.const("k")
    i, j = e.const("ix"), e.const("ix")
    t = e.sbin(ast.Mult(), vsub(a.el, (a.ixs[0], i), (a.ixs[1], k)), vsub(b.el, (b.ixs[0], k), (b.ixs[1], j)))
    return Nd([a.shape[0], b.shape[1]], [i, j], total(e, Nd([n], [k], t)))


def inner(e, a, b):
    if len(a.shape) != 1 or len(b.shape) != 1:
        raise Unsupported("inner rank")
    return total(e, bcast(e, a, b, lambda p, q: e.sbin(ast.Mult(), p, q)))


def reshape(e, c, dims, node):
    dims = [d.v if d.conc else zi(d) for d in dims]
    if len(dims) == 1 and len(c.shape) == 1:
        return new(e, c)
    if len(dims) == 1:
        return new(e, flatten(e, c))
    if len(c.shape) == 1 and len(dims) == 2:
        n = c.shape[0]
        one = lambda d: isinstance(d, int) and d in (1, -1) and d == 1
        if one(dims[1]):
            return new(e, Nd([n, 1], [c.ixs[0], e.const("ix")], c.el))
        if one(dims[0]):
            return new(e, Nd([1, n], [e.const("ix"), c.ixs[0]], c.el))
        if hasattr(c, "split") and all(dimeq(x, y) for x, y in zip(dims, c.split.shape)):
            return new(e, c.split)
        i, j = e.const("ix"), e.const("ix")
        return new(e, Nd(dims, [i, j], divmod_simplify(e, vsub(c.el, (c.ixs[0], i * zi(dims[1]) + j)))))
    raise Unsupported("reshape")


def extremum_nd(e, c, ismax, node):
    from . import lib
    if len(c.shape) != 1:
        raise Unsupported("max of 2-d array")
    return lib.extremum(e, [rows(e, c)], {}, node, ismax)


def method(e, o, c, name, args, kwargs, node):
    ax = kwargs.get("axis")
    if name == "sum":
        if args:
            ax = args[0]
        return total(e, c) if ax is None or isinstance(ax, NoneV) else sum_axis(e, c, ax.v)
    if name == "prod":
        ax = ax or (args[0] if args else None)
        if ax is None or len(c.shape) == 1:
            if len(c.shape) != 1:
                raise Unsupported("prod of matrix")
            return prod1(e, c.ixs[0], c.el, c.shape[0])
        a = ax.v % len(c.shape)
        r = prod1(e, c.ixs[a], c.el, c.shape[a])
        return new(e, Nd(c.shape[:a] + c.shape[a + 1:], c.ixs[:a] + c.ixs[a + 1:], r))
    if name in ("flatten", "ravel"):
        return new(e, flatten(e, c))
    if name == "reshape":
        dims = args
        if len(args) == 1:
            d = e.content(args[0])
            if isinstance(d, Tup):
                dims = d.items
        return reshape(e, c, dims, node)
    if name == "copy":
        return new(e, c)
    if name == "tolist":
        if len(c.shape) == 1:
            from . import lib
            return e.new_list(lib.relist(rows(e, c), "list"))
        raise Unsupported("tolist rank")
    if name in ("max", "min"):
        return extremum_nd(e, c, name == "max", node)
    if name == "mean":
        return mean(e, c, node)
    if name == "cumsum":
        return new(e, cumsum_nd(e, c))
    if name == "transpose":
        return transpose(e, c)
    if name == "dot":
        return matmul(e, c, to_nd(e, args[0]))
    if name == "astype":
        return new(e, c)
    if name in ("all", "any"):
        from . import lib
        return lib.quant(e, rows(e, c), name == "all")
    if name == "fill":
        e.write(o, NdCell(Nd(c.shape, c.ixs, args[0])))
        return NONE
    raise Unsupported(f"ndarray.{name}")


def prod1(e, ix, el, n):
    if isinstance(n, int) and n <= 16:
        r = S(1)
        for i in range(n):
            r = e.sbin(ast.Mult(), r, vsub(el, (ix, z3.IntVal(i))))
        return r
    s = e.const("pt")
    return S(T.ProdR(z3.Lambda([s], z3.substitute(zr(el), (ix, s))), zi(n)))


def mean(e, c, node):
    n = S(1)
    for s in c.shape:
        n = e.sbin(ast.Mult(), n, S(s))
    return e.sbin(ast.Div(), total(e, c), n, node)


# ------------------------------------------------------------------ functions
@ex("numpy.array", "numpy.asarray", "numpy.atleast_1d")
def _array(e, a, k, n):
    c = to_nd(e, a[0])
    d = k.get("dtype")
    r = Nd(c.shape, c.ixs, c.el)
    if hasattr(c, "split"):
        r.split = c.split
    return new(e, r)


def dims_of(e, v):
    c = e.content(v)
    if isinstance(c, S):
        return [c.v if c.conc else zi(c)]
    s = e.to_seq(c)
    return [x.v if x.conc else zi(x) for x in s.items]


def full(e, dims, v):
    return new(e, Nd(dims, [e.const("ix") for _ in dims], v))


@ex("numpy.zeros")
def _zeros(e, a, k, n):
    return full(e, dims_of(e, a[0] if a else k["shape"]), S(Fraction(0)))


@ex("numpy.ones")
def _ones(e, a, k, n):
    return full(e, dims_of(e, a[0] if a else k["shape"]), S(Fraction(1)))


@ex("numpy.full")
def _full(e, a, k, n):
    return full(e, dims_of(e, a[0]), a[1])


@ex("numpy.zeros_like")
def _zl(e, a, k, n):
    return full(e, to_nd(e, a[0]).shape, S(Fraction(0)))


@ex("numpy.ones_like")
def _ol(e, a, k, n):
    return full(e, to_nd(e, a[0]).shape, S(Fraction(1)))


@ex("numpy.eye", "numpy.identity")
def _eye(e, a, k, n):
    d = dims_of(e, a[0])[0]
    i, j = e.const("ix"), e.const("ix")
    return new(e, Nd([d, d], [i, j], S(z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))))


@ex("numpy.arange")
def _arange(e, a, k, n):
    from . import lib
    return new(e, to_nd(e, lib.B["range"].fn(e, a, k, n)))


@ex("numpy.outer")
def _outer(e, a, k, n):
    x, y = flatten(e, to_nd(e, a[0])), flatten(e, to_nd(e, a[1]))
    i, j = e.const("ix"), e.const("ix")
    return new(e, Nd([x.shape[0], y.shape[0]], [i, j], e.sbin(ast.Mult(), vsub(x.el, (x.ixs[0], i)), vsub(y.el, (y.ixs[0], j)))))


@ex("numpy.inner")
def _inner(e, a, k, n):
    return inner(e, to_nd(e, a[0]), to_nd(e, a[1]))


@ex("numpy.dot")
def _dot(e, a, k, n):
    return matmul(e, to_nd(e, a[0]), to_nd(e, a[1]))


@ex("numpy.matmul")
def _matmul(e, a, k, n):
    return matmul(e, to_nd(e, a[0]), to_nd(e, a[1]))


@ex("numpy.sum")
def _sum(e, a, k, n):
    c = to_nd(e, a[0])
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    return total(e, c) if ax is None or isinstance(ax, NoneV) else sum_axis(e, c, ax.v)


@ex("numpy.prod")
def _prod(e, a, k, n):
    c = to_nd(e, a[0])
    return method(e, c, c, "prod", a[1:], k, n)


@ex("numpy.cumsum")
def _cumsum(e, a, k, n):
    return new(e, cumsum_nd(e, to_nd(e, a[0])))


@ex("numpy.mean")
def _mean(e, a, k, n):
    return mean(e, to_nd(e, a[0]), n)


@ex("numpy.max", "numpy.amax")
def _max(e, a, k, n):
    return extremum_nd(e, to_nd(e, a[0]), True, n)


@ex("numpy.min", "numpy.amin")
def _min(e, a, k, n):
    return extremum_nd(e, to_nd(e, a[0]), False, n)


@ex("numpy.diag", "numpy.diagonal")
def _diag(e, a, k, n):
    c = to_nd(e, a[0])
    if len(c.shape) == 2:
        return new(e, Nd([c.shape[0]], [c.ixs[0]], vsub(c.el, (c.ixs[1], c.ixs[0]))))
    i, j = e.const("ix"), e.const("ix")
    return new(e, Nd([c.shape[0]] * 2, [i, j], e.ite(i == j, vsub(c.el, (c.ixs[0], i)), S(Fraction(0)))))


@ex("numpy.square")
def _square(e, a, k, n):
    f = lambda x: e.sbin(ast.Mult(), x, x)
    return f(a[0]) if isinstance(a[0], S) else elementwise(e, a[0], f)


@ex("numpy.sqrt")
def _sqrt(e, a, k, n):
    f = lambda x: S(T.Sqrt(zr(x)))
    return f(a[0]) if isinstance(a[0], S) else elementwise(e, a[0], f)


@ex("numpy.exp")
def _exp(e, a, k, n):
    f = lambda x: S(T.Exp(zr(x)))
    return f(a[0]) if isinstance(a[0], S) else elementwise(e, a[0], f)


@ex("numpy.log")
def _log(e, a, k, n):
    f = lambda x: S(T.Log(zr(x)))
    return f(a[0]) if isinstance(a[0], S) else elementwise(e, a[0], f)


@ex("numpy.abs", "numpy.absolute")
def _abs(e, a, k, n):
    from . import lib
    return lib.B["abs"].fn(e, a, k, n)


@ex("numpy.power")
def _power(e, a, k, n):
    return e.binop(ast.Pow(), a[0], a[1], n)


@ex("numpy.kron")
def _kron(e, a, k, n):
    x, y = to_nd(e, a[0]), to_nd(e, a[1])
    if len(x.shape) == 1:
        x = Nd([1] + x.shape, [e.const("ix")] + x.ixs, x.el)
    if len(y.shape) == 1:
        y = Nd([1] + y.shape, [e.const("ix")] + y.ixs, y.el)
    i, j = e.const("ix"), e.const("ix")

    def parts(ix, dx, dy):
        if isinstance(dy, int) and dy == 1:
            return ix, z3.IntVal(0), dx
        if isinstance(dx, int) and dx == 1:
            return z3.IntVal(0), ix, dy
        d = dx * dy if isinstance(dx, int) and isinstance(dy, int) else zi(dx) * zi(dy)
        return ix / zi(dy), ix % zi(dy), d
    r1, r2, rn = parts(i, x.shape[0], y.shape[0])
    c1, c2, cn = parts(j, x.shape[1], y.shape[1])
    el = e.sbin(ast.Mult(), vsub(x.el, (x.ixs[0], r1), (x.ixs[1], c1)), vsub(y.el, (y.ixs[0], r2), (y.ixs[1], c2)))
    return new(e, Nd([rn, cn], [i, j], el))


def concat0(e, nds):
    acc = nds[0]
    for b in nds[1:]:
        check_dims(e, acc.shape[1:], b.shape[1:])
        ix = acc.ixs[0]
        n = acc.shape[0]
        bel = vsub(b.el, (b.ixs[0], ix - zi(n)), *zip(b.ixs[1:], acc.ixs[1:]))
        m = b.shape[0]
        acc = Nd([n + m if isinstance(n, int) and isinstance(m, int) else zi(n) + zi(m)] + acc.shape[1:], acc.ixs, e.ite(ix < zi(n), acc.el, bel))
    return acc


@ex("numpy.concatenate", "numpy.vstack", "numpy.hstack", "numpy.append")
def _concat(e, a, k, node):
    if node is not None and isinstance(node, ast.Call) and ast.unparse(node.func).endswith("append"):
        return new(e, concat0(e, [as1(e, flatten(e, to_nd(e, x))) for x in a[:2]]))
    s = e.to_seq(a[0])
    if not isinstance(s, CSeq):
        raise Unsupported("concatenate symbolic list")
    nds = [to_nd(e, x) for x in s.items]
    nm = ast.unparse(node.func) if isinstance(node, ast.Call) else ""
    if nm.endswith("vstack"):
        nds = [Nd([1] + x.shape, [e.const("ix")] + x.ixs, x.el) if len(x.shape) == 1 else x for x in nds]
        return new(e, concat0(e, nds))
    if nm.endswith("hstack") and any(len(x.shape) > 1 for x in nds):
        raise Unsupported("hstack")
    ax = k.get("axis")
    if isinstance(ax, NoneV):
        nds = [flatten(e, x) for x in nds]
    elif ax is not None and not (ax.conc and ax.v == 0):
        raise Unsupported("concatenate axis")
    return new(e, concat0(e, nds))


def as1(e, c):
    return Nd([1], [e.const("ix")], c.el) if not c.shape else c


@ex("numpy.transpose")
def _transpose(e, a, k, n):
    return transpose(e, to_nd(e, a[0]))


def extr2(e, a, ismax, n):
    from . import lib
    f = lambda p, q: lib.extremum(e, [p, q], {}, n, ismax)
    if isinstance(a[0], S) and isinstance(a[1], S):
        return f(a[0], a[1])
    return new(e, bcast(e, to_nd(e, a[0]), to_nd(e, a[1]), f, n))


@ex("numpy.maximum")
def _maximum(e, a, k, n):
    return extr2(e, a, True, n)


@ex("numpy.minimum")
def _minimum(e, a, k, n):
    return extr2(e, a, False, n)


def accumulate(e, a, n, ismax):
    c = to_nd(e, a[0])
    if len(c.shape) != 1:
        raise Unsupported("accumulate rank")
    if isinstance(c.shape[0], int):
        from . import lib
        out, acc = [], None
        for i in range(c.shape[0]):
            v = vsub(c.el, (c.ixs[0], z3.IntVal(i)))
            acc = v if acc is None else lib.extremum(e, [acc, v], {}, n, ismax)
            out.append(acc)
        return new(e, to_nd(e, CSeq(out)))
    t = zany(c.el)
    ix = e.const("ix")
    args = list(e.bound)
    M = z3.Function(e.name("accum"), *[b.sort() for b in args], z3.IntSort(), t.sort())
    W = z3.Function(e.name("accum_at"), *[b.sort() for b in args], z3.IntSort(), z3.IntSort())
    i, j = e.const("i"), e.const("j")
    nn = zi(c.shape[0])
    le = (lambda x, y: x <= y) if ismax else (lambda x, y: x >= y)
    at = lambda q: z3.substitute(t, (c.ixs[0], q))
    Mi, w = M(*args, i), W(*args, i)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= w, w <= i, Mi == at(w), le(at(i), Mi), z3.Implies(i == 0, Mi == at(z3.IntVal(0))))), patterns=[Mi]))
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j <= i, i < nn), z3.And(le(M(*args, j), Mi), le(at(j), Mi))), patterns=[z3.MultiPattern(Mi, M(*args, j))]))
    return new(e, Nd(c.shape, [ix], S(M(*args, ix))))


@ex("numpy.minimum.accumulate")
def _minacc(e, a, k, n):
    return accumulate(e, a, n, False)


@ex("numpy.maximum.accumulate")
def _maxacc(e, a, k, n):
    return accumulate(e, a, n, True)


@ex("numpy.random.seed")
def _seed(e, a, k, n):
    return NONE


@ex("numpy.random.rand", "numpy.random.random", "numpy.random.uniform")
def _rand(e, a, k, n):
    if k or (isinstance(n, ast.Call) and ast.unparse(n.func).endswith("uniform")):
        raise Unsupported("uniform")
    if not a:
        r = e.fresh("rand", z3.RealSort())
        e.assume(z3.And(0 <= r, r < 1))
        return S(r)
    dims = [x.v if x.conc else zi(x) for x in a]
    ixs = [e.const("ix") for _ in dims]
    t = e.fresh("rand", z3.RealSort(), ixs)
    e.assume(z3.ForAll(ixs, z3.And(0 <= t, t < 1), patterns=[t]))
    return new(e, Nd(dims, ixs, S(t)))


@ex("numpy.random.dirichlet")
def _dirichlet(e, a, k, n):
    """random rows on the simplex: entries in [0, 1] (that the rows sum to one is not used)"""
    al = to_nd(e, a[0])
    size = k.get("size", a[1] if len(a) > 1 else None)
    dims = ([] if size is None else [size.v if size.conc else zi(size)]) + [al.shape[0]]
    ixs = [e.const("ix") for _ in dims]
    t = e.fresh("dirichlet", z3.RealSort(), ixs)
    e.assume(z3.ForAll(ixs, z3.And(0 <= t, t <= 1), patterns=[t]))
    return new(e, Nd(dims, ixs, S(t)))


@ex("numpy.random.permutation")
def _perm(e, a, k, n):
    m = a[0]
    if not isinstance(m, S):
        raise Unsupported("permutation of array")
    nm = e.name("rperm")
    srt = [b.sort() for b in e.bound]
    P = z3.Function(nm, *srt, z3.IntSort(), z3.IntSort())
    Q = z3.Function(nm + "_inv", *srt, z3.IntSort(), z3.IntSort())
    i = e.const("ix")
    b = list(e.bound)
    nn = zi(m)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= P(*b, i), P(*b, i) < nn, Q(*b, P(*b, i)) == i)), patterns=[P(*b, i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= Q(*b, i), Q(*b, i) < nn, P(*b, Q(*b, i)) == i)), patterns=[Q(*b, i)]))
    ix = e.const("ix")
    return Seq(nn, ix, S(P(*b, ix)), "gen")


@ex("cvxopt.matrix")
def _matrix(e, a, k, n):
    c = to_nd(e, a[0])
    if len(c.shape) == 1:
        r = Nd(c.shape + [1], c.ixs + [e.const("ix")], c.el)
    else:
        r = Nd(c.shape, c.ixs, c.el)
    return new(e, r)


NBPMF = z3.Function("NbinomPmf", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())


@ex("scipy.stats.nbinom.pmf")
def _nbpmf(e, a, k, n):
    """negative binomial probabilities: uninterpreted, 0 <= pmf <= 1"""
    e.trusted_used.add("scipy.stats.nbinom.pmf: some function of its arguments with values in [0, 1]")
    r, p = zr(a[1]), zr(a[2])
    x, y, z = z3.Reals("nb_x nb_y nb_z")
    ax = z3.ForAll([x, y, z], z3.And(0 <= NBPMF(x, y, z), NBPMF(x, y, z) <= 1), patterns=[NBPMF(x, y, z)])
    e.assume(ax)
    f = lambda v: S(NBPMF(zr(v), r, p))
    return f(a[0]) if isinstance(a[0], S) else elementwise(e, a[0], f)


@ex("scipy.stats._discrete_distns.binom_gen")
def _binomgen(e, a, k, n):
    return Opq("binom")


@ex("numpy.random.RandomState", "numpy.random.default_rng")
def _rs(e, a, k, n):
    return NONE        # only ever passed on to (modelled) dependencies; any use of it is outside the verifier's reach


@ex("wfa_cardinality_estimation_evaluation_framework.estimators.estimator_noisers.GeometricEstimateNoiser")
def _noiser(e, a, k, n):
    """assumed contract of the absent dependency: adds an arbitrary number to its argument"""
    return PyF(lambda e, a, k, n: S(zr(a[0]) + e.fresh("noise", z3.RealSort(), e.bound)), "noiser")
