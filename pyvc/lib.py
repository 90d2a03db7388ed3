"""Library models: Python builtins, collections, bisect, copy, math, random (assumed contracts on dependencies)."""
import ast
from fractions import Fraction
import z3
from .values import *
from .engine import *
from .engine import contains_term
from . import theory as T
from . import strings
from .interp import PyF, ModV, ExcV
from .loader import ClassInfo

EXCS = {"ValueError", "RuntimeError", "IndexError", "KeyError", "TypeError", "OverflowError", "NotImplementedError",
        "ZeroDivisionError", "AssertionError", "Exception", "StopIteration", "AttributeError", "NameError", "FileNotFoundError",
        "ArithmeticError", "LookupError", "OSError", "BaseException"}
B = {}
X = {}


def bi(*names):
    def d(f):
        for n in names:
            B[n] = PyF(f, n)
        return f
    return d


def ex(*names):
    def d(f):
        for n in names:
            X[n] = PyF(f, n)
        return f
    return d


def builtin(name):
    if name in B:
        return B[name]
    if name in EXCS:
        return Ext("exc." + name)
    if name in ("object", "int", "float", "str", "bytes"):
        return Ext("builtins." + name)
    if name == "__name__":
        return S("module")
    return None


ALIAS = {}


def external(path):
    if path in X:
        return X[path]
    from . import npmod
    if path in npmod.X:
        return npmod.X[path]
    if path in npmod.CONST:
        return npmod.CONST[path]
    if path == "math.inf":
        return S(float("inf"))
    if path == "math.pi":
        return S(Fraction(repr(3.141592653589793)))
    return Ext(path)


def call_ext(e, path, args, kwargs, node):
    if path in X:
        return X[path].fn(e, args, kwargs, node)
    from . import npmod
    if path in npmod.X:
        return npmod.X[path].fn(e, args, kwargs, node)
    if path.startswith("exc."):
        return ExcV(path[4:])
    if path == "builtins.object":
        return Opq("object")
    if path in ("typing.NewType", "typing.TypeVar"):
        return Opq("type")
    raise Unsupported(f"external function {path}")


# ------------------------------------------------------------------ helpers
def make_set(e, s):
    s = e.to_seq(s)
    if isinstance(s, CSeq):
        if not s.items:
            return e.alloc(SetCell(SetV(e.const("kx"), z3.BoolVal(False))))
        kx = e.const("kx", zany(s.items[0]).sort())
        mem = z3.Or(*[kx == e.key_term(kx, x) for x in s.items])
        return e.alloc(SetCell(SetV(kx, mem)))
    return e.alloc(SetCell(set_of(e, s)))


def set_of(e, s):
    if isinstance(s, CSeq):
        if not s.items:
            return SetV(e.const("kx"), z3.BoolVal(False))
        kx = e.const("kx", zany(s.items[0]).sort())
        return SetV(kx, z3.Or(*[kx == e.key_term(kx, x) for x in s.items]))
    s = getattr(s, "rev_of", s)
    if isinstance(s, Flat):
        inner = set_of(e, s.block)
        i = e.const("si")
        return SetV(inner.kx, z3.Exists([i], z3.And(0 <= i, i < zi(s.n), z3.substitute(inner.mem, (s.ix, i)))))
    if not isinstance(s.el, S):
        raise Unsupported("set of non-scalars")
    t = zany(s.el)
    kx = e.const("kx", t.sort())
    i = e.const("si")
    cs = [0 <= i, i < zi(s.n)]
    if isinstance(s, GSeq):
        cs.append(z3.substitute(s.guard, (s.ix, i)))
    # enumeration of a map: membership without a quantifier
    if z3.is_app(t) and t.decl().name() in e.enums and not isinstance(s, GSeq) and t.arg(t.num_args() - 1).eq(s.ix):
        k0, dom, px, pos = e.enums[t.decl().name()][:4]
        return SetV(kx, z3.And(z3.substitute(dom, (k0, kx)), z3.substitute(pos, (px, kx)) < zi(s.n)))
    return SetV(kx, z3.Exists([i], z3.And(*cs, z3.substitute(t, (s.ix, i)) == kx)))


def counter_of(e, s):
    s = e.to_seq(s)
    if isinstance(s, CSeq) and not s.items:
        return CMap([])
    first = s.items[0] if isinstance(s, CSeq) else (s.block if isinstance(s, Flat) else s.el)
    if isinstance(first, Seq):
        first = first.el
    kx = e.const("kx", zany(first).sort())
    val = e.bag_sum(s, lambda x: S(z3.If(zany(x) == kx, z3.IntVal(1), z3.IntVal(0))))
    dom = set_of(e, s)
    m = MapV(kx, z3.substitute(dom.mem, (dom.kx, kx)), val)
    m.total = e.length(s)
    m.counter = True
    return m


def make_dict(e, s, node=None):
    """dict from a sequence of (key, value) pairs"""
    s = e.to_seq(s)
    if isinstance(s, CSeq):
        m = CMap([])
        for x in s.items:
            x = e.content(x)
            m = e.map_set(m, e.as_key(x.items[0]), x.items[1])
        return e.alloc(DictCell(m))
    if isinstance(s, Flat):
        s = e.to_plain(s)
    k, v = s.el.items if isinstance(s.el, Tup) else (e.seq_get_raw(s.el, 0), e.seq_get_raw(s.el, 1))
    kt = zany(k)
    kx = e.const("kx", kt.sort())
    from . import loops
    inv = loops.invert(e, kx == kt, s.ix)
    if inv is None:
        # last pair wins; keys proved distinct -> position function
        i1, i2 = e.const("i"), e.const("i")
        kk = lambda i: z3.substitute(kt, (s.ix, i))
        g = (lambda i: z3.substitute(s.guard, (s.ix, i))) if isinstance(s, GSeq) else (lambda i: z3.BoolVal(True))
        pos = z3.Function(e.name("dpos"), *[b.sort() for b in e.bound], kt.sort(), z3.IntSort())
        P = pos(*e.bound, kx)
        n = zi(s.n)
        mem = z3.Exists([i1], z3.And(0 <= i1, i1 < n, g(i1), kk(i1) == kx))
        i3 = e.const("i")
        e.assume(z3.ForAll([kx], z3.Implies(mem, z3.And(0 <= P, P < n, g(P), kk(P) == kx)), patterns=[P]))
        e.assume(z3.ForAll([i3], z3.Implies(z3.And(0 <= i3, i3 < n, g(i3)), z3.And(0 <= pos(*e.bound, kk(i3)), i3 <= pos(*e.bound, kk(i3)), pos(*e.bound, kk(i3)) < n, g(pos(*e.bound, kk(i3))), kk(pos(*e.bound, kk(i3))) == kk(i3)))))
        val = vsub(v, (s.ix, P))
        return e.alloc(DictCell(MapV(kx, mem, e.norm_val(mem, val))))
    tt, cond = inv
    cs = [cond, 0 <= tt, tt < zi(s.n)]
    if isinstance(s, GSeq):
        cs.append(loops.fold_key(e, z3.substitute(s.guard, (s.ix, tt))))
    dom = z3.And(*cs)
    val = vmap(vsub(v, (s.ix, tt)), lambda t: loops.fold_key(e, t))
    return e.alloc(DictCell(MapV(kx, dom, e.norm_val(dom, val))))


def key_fn(e, kwargs):
    k = kwargs.get("key")
    return k if k is not None and not isinstance(k, NoneV) else None


def sort_seq(e, s, key, reverse, node):
    s = e.to_plain(e.to_seq(s))
    if isinstance(s, CSeq):
        if len(s.items) <= 1:
            return s
        keys = [x if key is None else e.call(key, [x], {}, node) for x in s.items]
        if all(isinstance(k, S) and k.conc for k in keys):
            o = sorted(range(len(keys)), key=lambda i: keys[i].v, reverse=reverse)
            return CSeq([s.items[i] for i in o], s.kind)
        ix = e.const("ix")
        s = Seq(z3.IntVal(len(s.items)), ix, e.seq_get_raw(s, ix), s.kind)
    kv = e.generic(s.ix, [0 <= s.ix, s.ix < zi(s.n)], lambda: e.merged(lambda: s.el if key is None else e.call(key, [s.el], {}, node)))
    if isinstance(kv, Tup):
        raise Unsupported("sort by tuple")
    kt = zany(kv)
    ck = (e.canon(terms_of(Seq(s.n, s.ix, s.el)) + [kt], [s.ix]), reverse, tuple(b.get_id() for b in e.bound))
    if ck in e.sort_cache:
        r, keep = e.sort_cache[ck]
        return r
    if "perm_sort" in kt.sexpr():
        # keys already in order: a stable sort changes nothing
        a, b = e.const("sa"), e.const("sb")
        ka, kb = z3.substitute(kt, (s.ix, a)), z3.substitute(kt, (s.ix, b))
        from . import solve
        if solve.run(list(e.hyps()) + [0 <= a, a < b, b < zi(s.n), (ka < kb) if reverse else (ka > kb)], 1500, opts=solve.PORTFOLIO[:3])[0] == "unsat":
            return s
    ts = terms_of(Seq(s.n, s.ix, s.el)) + [kt]
    b = [x for x in e.bound if any(contains_term(t, x) for t in ts)]
    srt = [x.sort() for x in b]
    # the same sequence (up to the names of the enclosing indices) has the same stable sorting permutation
    fk = ("sortf", e.canon(ts, [s.ix] + b), tuple(str(x) for x in srt), reverse)
    if fk in e.sort_cache:
        pi, qi = e.sort_cache[fk]
    else:
        nm = e.name("sort")
        pi = z3.Function("perm_" + nm, *srt, z3.IntSort(), z3.IntSort())
        qi = z3.Function("invp_" + nm, *srt, z3.IntSort(), z3.IntSort())
        e.sort_cache[fk] = (pi, qi)
    i, k = e.const("i"), e.const("k")
    n = zi(s.n)
    P, Q = (lambda x: pi(*b, x)), (lambda x: qi(*b, x))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= P(i), P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Q(i), Q(i) < n, P(Q(i)) == i)), patterns=[Q(i)]))
    K = lambda x: z3.substitute(kt, (s.ix, P(x)))
    le = (K(i) >= K(k)) if reverse else (K(i) <= K(k))
    e.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < n), le), patterns=[z3.MultiPattern(P(i), P(k))]))
    # stability
    e.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < n, K(i) == K(k)), P(i) < P(k)), patterns=[z3.MultiPattern(P(i), P(k))]))
    ix = e.const("ix")
    r = Seq(s.n, ix, vsub(s.el, (s.ix, P(ix))), s.kind, perm=s if s.perm is None else s.perm)
    r.sortkey = (kt, s.ix, P)
    e.perms.setdefault(pi.name(), (list(b), n))
    if not b:
        e.wits.append((i, z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Q(i), Q(i) < n, P(Q(i)) == i))))
    e.trusted_used.add("sort/sorted: stable sorting permutation")
    e.sort_cache[ck] = (r, s)
    return r


def extremum(e, args, kwargs, node, ismax):
    key = kwargs.get("key")
    if key is not None:
        raise Unsupported("max with key")
    if len(args) == 1:
        s = e.to_seq(args[0])
        if not isinstance(s, CSeq):
            s = e.to_plain(s) if not isinstance(s, GSeq) else s
        if not isinstance(s, CSeq):
            n = e.length(s)
            if "default" in kwargs and not e.decide(zi(n) > 0):
                return kwargs["default"]
            e.require(zi(n) > 0, "ValueError", "max() of empty sequence", node)
            el = s.el
            if not isinstance(el, S):
                raise Unsupported("max of non-scalars")
            t = zany(el)
            ck = ("ext", ismax, e.canon(terms_of(s), [s.ix]), tuple(b.get_id() for b in e.bound))
            if ck in e.sort_cache:
                return e.sort_cache[ck][0]
            m = e.fresh("max" if ismax else "min", t.sort())
            w = e.fresh("argm", z3.IntSort())
            i = e.const("i")
            ti, tw = z3.substitute(t, (s.ix, i)), z3.substitute(t, (s.ix, w))
            g = (lambda x: z3.substitute(s.guard, (s.ix, x))) if isinstance(s, GSeq) else (lambda x: z3.BoolVal(True))
            body = z3.Implies(z3.And(0 <= i, i < zi(s.n), g(i)), ti <= m if ismax else ti >= m)
            e.assume(z3.ForAll([i], body))
            e.assume(z3.And(0 <= w, w < zi(s.n), g(w), tw == m))
            e.sort_cache[ck] = (S(m), s)
            return S(m)
        args = s.items
        if not args:
            if "default" in kwargs:
                return kwargs["default"]
            e.require(False, "ValueError", "max() of empty sequence", node)
            raise EndPath()
    r = args[0]
    for x in args[1:]:
        if isinstance(r, S) and isinstance(x, S):
            if r.kind == "inf" or x.kind == "inf":
                c = e.cmp_inf(ast.Lt(), r, x) if ismax else e.cmp_inf(ast.Gt(), r, x)
                r = x if c.v else r
                continue
            c = e.cmp(ast.Lt() if ismax else ast.Gt(), r, x)
            if c.conc:
                r = x if c.v else r
            else:
                r = e.ite(zb(c), x, r)
        else:
            raise Unsupported("max of non-scalars")
    return r


# ------------------------------------------------------------------ builtins
@bi("len")
def _len(e, a, k, n):
    c = e.content(a[0])
    if isinstance(c, (ObjCell, ObjVal)):
        m = e.find_method(c.cls, "__len__")
        if m:
            return e.call(e.bind(m, a[0]), [], {}, n)
    return S(e.length(a[0]))


@bi("range")
def _range(e, a, k, node):
    if len(a) == 1:
        lo, hi, st = S(0), a[0], S(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], S(1)
    else:
        lo, hi, st = a
    for x in (lo, hi, st):
        if isinstance(x, S) and x.kind == "real" and x.conc:
            raise PyRaise("TypeError", node)
        if isinstance(x, S) and x.kind == "real":
            raise Unsupported("range over a real")
    if lo.conc and hi.conc and st.conc:
        return CSeq([S(i) for i in range(int(lo.v), int(hi.v), int(st.v))], "range")
    if not st.conc or st.v not in (1, -1):
        if st.conc and st.v > 0:
            d = zi(hi) - zi(lo)
            n = z3.If(d > 0, (d + (st.v - 1)) / st.v, z3.IntVal(0))
            ix = e.const("ix")
            return Seq(n, ix, S(zi(lo) + st.v * ix), "range")
        raise Unsupported("range step")
    d = z3.simplify((zi(hi) - zi(lo)) if st.v == 1 else (zi(lo) - zi(hi)))
    n = d
    if e.check_feasible(d < 0):
        n = z3.If(d > 0, d, z3.IntVal(0))
    ix = e.const("ix")
    el = ix + zi(lo) if st.v == 1 else zi(lo) - ix
    if st.v == 1 and lo.conc and lo.v == 0:
        el = ix
    return Seq(n, ix, S(el), "range")


@bi("sum")
def _sum(e, a, k, node):
    start = a[1] if len(a) > 1 else k.get("start", S(0))
    c = e.content(a[0])
    if isinstance(c, Nd):
        from . import npmod
        if len(c.shape) == 1:
            return e.binop(ast.Add(), start, npmod.total(e, c), node) if not (start.conc and start.v == 0) else npmod.total(e, c)
        return npmod.sum_axis(e, c, 0)
    s = e.to_seq(a[0])
    if isinstance(s, CSeq):
        r = start
        for x in s.items:
            r = e.binop(ast.Add(), r, x, node)
        return r
    el = s.block if isinstance(s, Flat) else s.el
    elc = e.content(el)
    if isinstance(elc, Nd):
        from . import npmod
        r = npmod.sum_stack(e, s, elc)
        return e.alloc(NdCell(r))
    r = e.bag_sum(s, lambda x: x)
    if start.conc and start.v == 0:
        return r
    return e.binop(ast.Add(), start, r, node)


@bi("max")
def _max(e, a, k, n):
    return extremum(e, a, k, n, True)


@bi("min")
def _min(e, a, k, n):
    return extremum(e, a, k, n, False)


@bi("abs")
def _abs(e, a, k, n):
    x = a[0]
    if not isinstance(x, S):
        from . import npmod
        return npmod.elementwise(e, x, lambda s: _abs(e, [s], {}, n))
    if x.conc:
        return S(abs(x.v))
    t = zany(x)
    return S(z3.If(t >= 0, t, -t))


def to_int(e, x):
    if isinstance(x, S):
        if x.kind in ("int", "bool"):
            return S(int(x.v)) if x.conc else S(zi(x))
        if x.kind == "real":
            if x.conc:
                return S(int(x.v))
            t = x.v
            if z3.is_to_real(t):
                return S(t.arg(0))
            # truncation toward zero
            q = exact_div(t)
            if q is not None:
                return S(q)
            return S(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        if x.kind == "str" and x.conc:
            try:
                return S(int(x.v))
            except ValueError:
                raise PyRaise("ValueError")
        if x.kind == "str":
            t = strings.number(e, x)
            if t is not None and t.decl().name() == "IntStr":
                return S(t.arg(0))
    raise Unsupported("int()")


def exact_div(t):
    return None


@bi("int")
def _int(e, a, k, n):
    return to_int(e, a[0]) if a else S(0)


@bi("float")
def _float(e, a, k, n):
    if not a:
        return S(Fraction(0))
    x = a[0]
    if isinstance(x, S) and x.kind == "str" and x.conc:
        if x.v in ("inf", "-inf"):
            return S(float(x.v))
        return S(Fraction(x.v))
    if isinstance(x, S) and x.kind == "str":
        t = strings.number(e, x)
        if t is not None:
            return S(zr(t.arg(0)))
    if isinstance(x, S) and x.kind in ("int", "bool", "real"):
        return S(Fraction(x.v)) if x.conc else S(zr(x))
    if isinstance(x, S) and x.kind == "inf":
        return x
    raise Unsupported("float()")


@bi("bool")
def _bool(e, a, k, n):
    return S(e.truth(a[0]))


@bi("str", "repr")
def _str(e, a, k, n):
    if a and isinstance(a[0], S) and a[0].kind == "str":
        return a[0]
    if a and isinstance(a[0], S) and a[0].conc and a[0].kind == "int":
        return S(str(a[0].v))
    t = strings.text(a[0]) if a else None
    return strings.make(t) if t is not None else e.fresh_str("str")


@bi("list")
def _list(e, a, k, n):
    if not a:
        return e.new_list(CSeq([]))
    s = e.to_seq(a[0])
    return e.new_list(relist(s, "list"))


def relist(s, kind):
    if isinstance(s, CSeq):
        return CSeq(s.items, kind)
    if isinstance(s, Seq):
        r = Seq(s.n, s.ix, s.el, kind, s.perm)
        for at in ("from_filter", "split"):
            if hasattr(s, at):
                setattr(r, at, getattr(s, at))
        return r
    if isinstance(s, GSeq):
        r = GSeq(s.n, s.ix, s.guard, s.el, kind, s.perm)
        return r
    return Flat(s.n, s.ix, s.block, kind)


@bi("tuple")
def _tuple(e, a, k, n):
    if not a:
        return Tup([])
    c = e.content(a[0])
    if isinstance(c, Tup):
        return c
    s = e.to_seq(a[0])
    if isinstance(s, CSeq):
        return Tup(s.items)
    return relist(s, "tuple")


@bi("set", "frozenset")
def _set(e, a, k, n):
    if not a:
        return e.alloc(SetCell(SetV(e.const("kx"), z3.BoolVal(False))))
    c = e.content(a[0])
    if isinstance(c, SetV):
        return e.alloc(SetCell(c))
    return make_set(e, a[0])


@bi("dict")
def _dict(e, a, k, n):
    if not a:
        return e.alloc(DictCell(CMap([(S(x), v) for x, v in k.items()])))
    c = e.content(a[0])
    if isinstance(c, MapV):
        m = MapV(c.kx, c.dom, c.val, None, c.order)
        if hasattr(c, "total"):
            m.total = c.total
        return e.alloc(DictCell(m))
    if isinstance(c, CMap):
        return e.alloc(DictCell(CMap(c.pairs, None)))
    return make_dict(e, a[0], n)


@bi("sorted")
def _sorted(e, a, k, n):
    rev = k.get("reverse")
    s = sort_seq(e, a[0], key_fn(e, k), bool(rev and rev.v), n)
    return e.new_list(relist(s, "list"))


@bi("reversed")
def _reversed(e, a, k, n):
    return relist(e.seq_reverse(e.to_seq(a[0])), "gen")


@bi("enumerate")
def _enumerate(e, a, k, n):
    st = a[1] if len(a) > 1 else k.get("start", S(0))
    s = e.to_seq(a[0])
    if isinstance(s, CSeq):
        return CSeq([Tup([e.binop(ast.Add(), st, S(i)), x]) for i, x in enumerate(s.items)], "gen")
    s = e.to_plain(s)
    return Seq(s.n, s.ix, Tup([S(s.ix if st.conc and st.v == 0 else s.ix + zi(st)), s.el]), "gen")


@bi("zip")
def _zip(e, a, k, n):
    if len(a) == 1 and isinstance(a[0], Opq) and a[0].tag == "star":
        s = e.to_plain(e.to_seq(a[0].data["v"]))
        if isinstance(s, Seq) and isinstance(s.el, Tup):
            e.require(zi(s.n) > 0, "ValueError", "unpacking zip(*empty)", n)
            return CSeq([Seq(s.n, s.ix, x, "tuple") for x in s.el.items], "gen")
        raise Unsupported("zip(*)")
    ss = [e.to_plain(e.to_seq(x)) for x in a]
    if all(isinstance(s, CSeq) for s in ss):
        return CSeq([Tup(list(t)) for t in zip(*[s.items for s in ss])], "gen")
    lens = [e.length(s) for s in ss]
    n0 = zi(lens[0])
    for l in lens[1:]:
        l = zi(l)
        if l.eq(n0):
            continue
        if not e.check_feasible(n0 != l):
            continue
        n0 = z3.If(n0 <= l, n0, l)
    ix = e.const("ix")
    return Seq(n0, ix, Tup([e.seq_get_raw(s, ix) for s in ss]), "gen")


def quant(e, s, isall):
    s = e.to_seq(s)
    if isinstance(s, CSeq):
        acc = S(isall)
        for x in s.items:
            t = S(e.truth(x))
            acc = e.and_(acc, t) if isall else e.or_(acc, t)
        return acc
    if isinstance(s, Flat):
        i = e.const("qi")
        inner = zb(quant(e, vsub(s.block, (s.ix, i)), isall))
        rng = z3.And(0 <= i, i < zi(s.n))
        return S(z3.ForAll([i], z3.Implies(rng, inner)) if isall else z3.Exists([i], z3.And(rng, inner)))
    i = e.const("qi")
    t = e.truth(vsub(s.el, (s.ix, i)))
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    rng = [0 <= i, i < zi(s.n)]
    if isinstance(s, GSeq):
        rng.append(z3.substitute(s.guard, (s.ix, i)))
    if isall:
        return S(z3.ForAll([i], z3.Implies(z3.And(*rng), t)))
    return S(z3.Exists([i], z3.And(*rng, t)))


@bi("all")
def _all(e, a, k, n):
    return quant(e, a[0], True)


@bi("any")
def _any(e, a, k, n):
    return quant(e, a[0], False)


@bi("round")
def _round(e, a, k, n):
    x = a[0]
    if len(a) > 1:
        raise Unsupported("round digits")
    if x.kind == "int":
        return x
    if x.conc:
        return S(round(x.v))
    r = e.fresh("round", z3.IntSort())
    e.assume(z3.And(z3.ToReal(r) <= zr(x) + z3.RealVal("1/2"), z3.ToReal(r) >= zr(x) - z3.RealVal("1/2")))
    return S(r)


@bi("isinstance")
def _isinstance(e, a, k, n):
    c = e.content(a[0])
    cl = a[1]
    if isinstance(cl, ClassInfo):
        if isinstance(c, (ObjCell, ObjVal)):
            return S(cl in e.mro(c.cls))
        if isinstance(c, Tup) and c.cls is not None:
            return S(cl is c.cls)
        return S(False)
    if isinstance(cl, Tup):
        r = [_isinstance(e, [a[0], x], {}, n) for x in cl.items]
        return S(any(x.v for x in r))
    nm = getattr(cl, "name", None)
    if nm is not None:
        nm = nm.split(".")[-1]
        v = a[0]
        if isinstance(v, S):
            if v.kind in ("int", "real", "bool", "str") and nm in ("int", "float", "bool", "str", "tuple", "list", "dict", "set", "ndarray", "Number", "integer"):
                return S({"int": nm in ("int", "Number"), "real": nm in ("float", "Number"), "bool": nm in ("bool", "int"), "str": nm == "str"}[v.kind])
        elif nm in ("int", "float", "bool", "str"):
            return S(False)
        elif isinstance(c, (Tup, ListCell, DictCell, SetCell, NdCell, Nd, ObjCell, ObjVal, NoneV)) and nm in ("tuple", "list", "dict", "set", "ndarray"):
            return S({"tuple": Tup, "list": ListCell, "dict": DictCell, "set": SetCell, "ndarray": (NdCell, Nd)}[nm] and
                     isinstance(c, {"tuple": Tup, "list": ListCell, "dict": DictCell, "set": SetCell, "ndarray": (NdCell, Nd)}[nm]))
    raise Unsupported("isinstance")


@bi("print")
def _print(e, a, k, n):
    return NONE


@bi("callable")
def _callable(e, a, k, n):
    return S(isinstance(a[0], (FuncV, Bound, Ext, PyF, UFun, ClassInfo)))


@bi("map")
def _map(e, a, k, node):
    s = e.to_seq(a[1])
    if isinstance(s, CSeq):
        return CSeq([e.call(a[0], [x], {}, node) for x in s.items], "gen")
    s = e.to_plain(s)
    v = e.generic(s.ix, [0 <= s.ix, s.ix < zi(s.n)], lambda: e.merged(lambda: e.call(a[0], [s.el], {}, node)))
    return Seq(s.n, s.ix, v, "gen")


@bi("type")
def _type(e, a, k, n):
    c = e.content(a[0])
    if isinstance(c, (ObjCell, ObjVal)):
        return c.cls
    if isinstance(c, Tup) and c.cls:
        return c.cls
    raise Unsupported("type()")


@bi("divmod")
def _divmod(e, a, k, n):
    return Tup([e.binop(ast.FloorDiv(), a[0], a[1], n), e.binop(ast.Mod(), a[0], a[1], n)])


@bi("pow")
def _pow(e, a, k, n):
    return e.binop(ast.Pow(), a[0], a[1], n)


@bi("property", "staticmethod", "classmethod")
def _deco(e, a, k, n):
    return a[0]


# ------------------------------------------------------------------ library functions
@ex("copy.deepcopy", "copy.copy")
def _deepcopy(e, a, k, n):
    return e.thaw(a[0])


@ex("bisect.bisect_right", "bisect.bisect", "bisect.bisect_left")
def _bisect(e, a, k, node, left=False):
    s, x = e.to_plain(e.to_seq(a[0])), a[1]
    if len(a) > 2 or k:
        raise Unsupported("bisect bounds")
    n = zi(e.length(s))
    i, j = e.const("i"), e.const("j")
    g = lambda q: zr(e.seq_get_raw(s, q))
    sortedp = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), g(i) <= g(j)))
    e.add_ob("bisect precondition: list sorted", sortedp, node)
    e.assume(sortedp)
    e.trusted_used.add("bisect.bisect_right on a sorted list: number of elements <= x")
    xr = zr(x)
    cnt = e.bag_sum(s, lambda v: S(z3.If(zr(v) <= xr if not left else zr(v) < xr, z3.IntVal(1), z3.IntVal(0))))
    r = zi(cnt)
    e.assume(z3.And(0 <= r, r <= n))
    lo = (g(i) < xr) if left else (g(i) <= xr)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), lo == (i < r))))
    return S(r)


def _bisect_left(e, a, k, node):
    return _bisect(e, a, k, node, True)


X["bisect.bisect_left"] = PyF(_bisect_left, "bisect_left")


@ex("collections.Counter")
def _counter(e, a, k, n):
    if not a:
        return e.alloc(DictCell(CMap([], PyF(lambda e, a, k, n: S(0), "zero"))))
    m = counter_of(e, a[0])
    m.default = PyF(lambda e, a, k, n: S(0), "zero")
    return e.alloc(DictCell(m))


@ex("collections.defaultdict")
def _defaultdict(e, a, k, n):
    d = a[0] if a else None
    if isinstance(d, Ext) and d.path in ("builtins.int",):
        d = B["int"]
    return e.alloc(DictCell(CMap([], d)))


@ex("collections.OrderedDict")
def _od(e, a, k, n):
    return _dict(e, a, k, n)


@ex("itertools.chain.from_iterable")
def _chain(e, a, k, n):
    s = e.to_seq(a[0])
    if isinstance(s, CSeq):
        r = CSeq([])
        for x in s.items:
            r = e.seq_concat(r, e.to_seq(x))
        return r
    s = e.to_plain(s)
    return Flat(s.n, s.ix, e.to_seq(s.el))


@ex("itertools.chain")
def _chain2(e, a, k, n):
    r = CSeq([])
    for x in a:
        r = e.seq_concat(r, e.to_seq(x))
    return r


@ex("itertools.combinations")
def _comb(e, a, k, n):
    import itertools
    s = e.to_seq(a[0])
    if isinstance(s, CSeq) and a[1].conc:
        return CSeq([Tup(list(c)) for c in itertools.combinations(s.items, a[1].v)])
    raise Unsupported("combinations of a symbolic sequence")


@ex("itertools.product")
def _prod(e, a, k, n):
    import itertools
    ss = [e.to_seq(x) for x in a]
    if all(isinstance(s, CSeq) for s in ss):
        return CSeq([Tup(list(c)) for c in itertools.product(*[s.items for s in ss])])
    ss = [e.to_plain(x) for x in ss]
    lens = [zi(e.length(s)) for s in ss]
    ix = e.const("ix")
    if len(ss) == 1:
        return Seq(lens[0], ix, Tup([e.seq_get_raw(ss[0], ix)]), "gen")
    if len(ss) == 2:
        return Seq(z3.simplify(lens[0] * lens[1]), ix, Tup([e.seq_get_raw(ss[0], ix / lens[1]), e.seq_get_raw(ss[1], ix % lens[1])]), "gen")
    raise Unsupported("product of symbolic sequences")


@ex("itertools.accumulate")
def _accum(e, a, k, n):
    if len(a) > 1 or k:
        raise Unsupported("accumulate with function")
    from . import npmod
    return npmod.cumsum_seq(e, a[0])


@ex("math.sqrt")
def _sqrt(e, a, k, n):
    return S(T.Sqrt(zr(a[0])))


@ex("math.exp")
def _exp(e, a, k, n):
    return S(T.Exp(zr(a[0])))


@ex("math.log")
def _log(e, a, k, n):
    e.require(zr(a[0]) > 0, "ValueError", "log of non-positive", n)
    return S(T.Log(zr(a[0])))


@ex("math.ceil")
def _ceil(e, a, k, n):
    x = a[0]
    if x.kind == "int":
        return x
    if x.conc:
        import math
        return S(math.ceil(x.v))
    return S(-z3.ToInt(-zr(x)))


@ex("math.floor")
def _floor(e, a, k, n):
    x = a[0]
    if x.kind == "int":
        return x
    if x.conc:
        import math
        return S(math.floor(x.v))
    return S(z3.ToInt(zr(x)))


@ex("functools.lru_cache", "functools.wraps")
def _id(e, a, k, n):
    return a[0] if a else PyF(lambda e, a, k, n: a[0], "deco")


@ex("numpy.random.randint")
def _randint(e, a, k, n):
    if "size" in k or len(a) > 2:
        raise Unsupported("randint size")
    r = e.fresh("randint", z3.IntSort())
    lo, hi = (S(0), a[0]) if len(a) == 1 else (a[0], a[1])
    e.assume(z3.And(zr(lo) <= z3.ToReal(r), z3.ToReal(r) < zr(hi)))
    return S(r)


@ex("random.randint")
def _randint2(e, a, k, n):
    r = e.fresh("randint", z3.IntSort())
    e.assume(z3.And(zi(a[0]) <= r, r <= zi(a[1])))
    return S(r)


# ------------------------------------------------------------------ attributes and methods of built-in values
def value_attr(e, o, name, node):
    c = e.content(o)
    if isinstance(c, Nd):
        from . import npmod
        return npmod.attr(e, o, c, name)
    if isinstance(c, Opq):
        return c.data.get(name)
    return None


def call_opq(e, f, args, kwargs, node):
    raise Unsupported(f"call of opaque {f.tag}")


def call_method(e, o, name, args, kwargs, node):
    c = e.content(o)
    if isinstance(c, Tup) and c.cls is not None and name == "_replace":
        items = list(c.items)
        for k, v in kwargs.items():
            items[c.cls.fields.index(k)] = v
        return Tup(items, c.cls)
    if e.is_seq(c) or isinstance(c, Tup):
        return seq_method(e, o, c, name, args, kwargs, node)
    if isinstance(c, (MapV, CMap)):
        return map_method(e, o, c, name, args, kwargs, node)
    if isinstance(c, SetV):
        return set_method(e, o, c, name, args, kwargs, node)
    if isinstance(c, Nd):
        from . import npmod
        return npmod.method(e, o, c, name, args, kwargs, node)
    if isinstance(c, S):
        return scalar_method(e, c, name, args, kwargs, node)
    if isinstance(c, Opq):
        h = OPQ.get((c.tag, name)) or OPQ.get((c.tag, "*"))
        if h:
            return h(e, c, name, args, kwargs, node)
    raise Unsupported(f"method {name} of {type(c).__name__}{' ' + c.tag if isinstance(c, Opq) else ''}")


OPQ = {}


def seq_method(e, o, c, name, args, kwargs, node):
    if name == "append":
        e.write(o, ListCell(e.seq_append(c, args[0])))
        return NONE
    if name == "extend":
        e.write(o, ListCell(e.seq_concat(c, e.to_seq(args[0]))))
        return NONE
    if name == "copy":
        return e.new_list(c if not isinstance(c, CSeq) else CSeq(c.items, "list"))
    if name == "sort":
        rev = kwargs.get("reverse")
        e.write(o, ListCell(sort_seq(e, c, key_fn(e, kwargs), bool(rev and rev.v), node)))
        return NONE
    if name == "reverse":
        e.write(o, ListCell(e.seq_reverse(c)))
        return NONE
    if name == "insert":
        if args[0].conc and args[0].v == 0:
            e.write(o, ListCell(e.seq_concat(CSeq([args[1]]), c)))
            return NONE
        raise Unsupported("insert")
    if name == "pop":
        n = e.length(c)
        if args and not (args[0].conc and args[0].v == -1):
            raise Unsupported("pop index")
        e.require(zi(n) > 0, "IndexError", "pop from empty list", node)
        v = e.seq_get_raw(c, zi(n) - 1 if not isinstance(n, int) else n - 1)
        e.write(o, ListCell(e.seq_slice(c, NONE, S(-1), None)))
        return v
    if name == "count":
        x = args[0]
        s = e.to_seq(c)

        def f(v):
            q = e.veq(v, x)
            return S(int(q)) if isinstance(q, bool) else S(z3.If(q, z3.IntVal(1), z3.IntVal(0)))
        return e.bag_sum(s, f)
    if name == "index":
        raise Unsupported("index")
    if name == "clear":
        e.write(o, ListCell(CSeq([])))
        return NONE
    raise Unsupported(f"list.{name}")


def map_method(e, o, c, name, args, kwargs, node):
    if name == "items":
        return e.items_seq(total_fact(e, c), "items")
    if name == "values":
        return e.items_seq(total_fact(e, c), "values")
    if name == "keys":
        return e.keys_seq(total_fact(e, c))
    if name == "get":
        return e.map_get_default(c, args[0], args[1] if len(args) > 1 else NONE)
    if name == "copy":
        return e.alloc(DictCell(c))
    if name == "update":
        d = e.content(args[0]) if args else CMap([(S(k), v) for k, v in kwargs.items()])
        if getattr(c, "counter", False) or (isinstance(c, CMap) and isinstance(c.default, PyF) and c.default.name == "zero"):
            raise Unsupported("Counter.update")
        if isinstance(d, CMap):
            for k, v in d.pairs:
                c = e.map_set(c, k, v)
            e.write(o, DictCell(c))
            return NONE
        if isinstance(c, CMap) and not c.pairs:
            e.write(o, DictCell(MapV(d.kx, d.dom, d.val, c.default)))
            return NONE
        c = e.to_mapv(c, d)
        dd, dv = z3.substitute(d.dom, (d.kx, c.kx)), vsub(d.val, (d.kx, c.kx))
        e.write(o, DictCell(MapV(c.kx, z3.Or(c.dom, dd), e.ite(dd, dv, c.val), c.default)))
        return NONE
    if name == "setdefault":
        if e.decide(zb(e.contains(o, args[0]))):
            return e.map_get(o, c, args[0], node)
        e.write(o, DictCell(e.map_set(c, args[0], args[1] if len(args) > 1 else NONE)))
        return e.map_get(o, e.content(o), args[0], node)
    if name == "pop":
        if isinstance(c, CMap) and args[0].conc:
            for i, (k, v) in enumerate(c.pairs):
                if k.v == args[0].v:
                    e.write(o, DictCell(CMap(c.pairs[:i] + c.pairs[i + 1:], c.default)))
                    return v
            if len(args) > 1:
                return args[1]
    raise Unsupported(f"dict.{name}")


def total_fact(e, c):
    """sum of Counter values = number of counted elements"""
    if isinstance(c, MapV) and hasattr(c, "total") and not getattr(c, "tf", False):
        jx, ek, px, pos, n = e.order(c)
        j = e.const("tj")
        v = vsub(c.val, (c.kx, z3.substitute(ek, (jx, j))))
        s = e.sum_over(j, v, n)
        e.assume(zi(s) == zi(c.total))
        e.trusted_used.add("sum of Counter values = number of counted elements")
        c.tf = True
    return c


def set_method(e, o, c, name, args, kwargs, node):
    if name == "add":
        k = args[0]
        if z3.is_false(c.mem):
            kx = e.const("kx", zany(k).sort())
            e.write(o, SetCell(SetV(kx, kx == zany(k))))
            return NONE
        if c.kx.sort() == z3.IntSort() and isinstance(k, S) and k.kind == "real":
            from .loops import promote_set
            c = promote_set(e, c)
        e.write(o, SetCell(SetV(c.kx, z3.Or(c.mem, c.kx == e.key_term(c.kx, k)))))
        return NONE
    if name == "update":
        for a in args:
            d = e.content(a)
            d = d if isinstance(d, SetV) else set_of(e, e.to_seq(a))
            c = SetV(d.kx, d.mem) if z3.is_false(c.mem) else SetV(c.kx, z3.Or(c.mem, z3.substitute(d.mem, (d.kx, c.kx))))
        e.write(o, SetCell(c))
        return NONE
    if name in ("union", "intersection", "difference"):
        for a in args:
            d = e.content(a)
            d = d if isinstance(d, SetV) else set_of(e, e.to_seq(a))
            dm = z3.substitute(d.mem, (d.kx, c.kx)) if d.kx.sort() == c.kx.sort() else d.mem
            if z3.is_false(c.mem):
                c = d if name == "union" else c
            else:
                c = SetV(c.kx, {"union": lambda: z3.Or(c.mem, dm), "intersection": lambda: z3.And(c.mem, dm),
                                "difference": lambda: z3.And(c.mem, z3.Not(dm))}[name]())
        return e.alloc(SetCell(c))
    if name == "copy":
        return e.alloc(SetCell(c))
    raise Unsupported(f"set.{name}")


def scalar_method(e, c, name, args, kwargs, node):
    if c.kind == "str":
        if name == "format":
            r = strings.fmt(e, c, args, kwargs)
            return r if r is not None else e.fresh_str("fmt")
        if not c.conc:
            r = strings.method(e, c, name, args, kwargs)
            if r is not None:
                return r
        if c.conc and all(isinstance(a, S) and a.conc for a in args) and name in ("split", "strip", "lower", "upper", "startswith", "endswith", "replace"):
            r = getattr(c.v, name)(*[a.v for a in args])
            if isinstance(r, list):
                return e.new_list(CSeq([S(x) for x in r]))
            return S(r)
        if name == "join":
            return e.fresh_str("join")
        raise Unsupported(f"str.{name}")
    if name in ("item",):
        return c
    if name == "copy":
        return c
    raise Unsupported(f"scalar method {name}")
