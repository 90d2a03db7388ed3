"""Symbolic meaning of the contract language.  /verif/rt/pyvc_dsl.py gives the same names their run-time meaning."""
import ast
import z3
from .values import *
from . import theory as T
from .engine import EndPath, PyRaise, ReturnX, ObjCell, contains_term
from .interp import PyF

# ---------------------------------------------------------------- type descriptors
Int, Nat, Real, Bool, Str = ("int",), ("nat",), ("real",), ("bool",), ("str",)


def List(t): return ("list", t)
def TupleList(t): return ("tuplelist", t)
def Tuple(*ts): return ("tuple", list(ts))
def Dict(k, v): return ("dict", k, v)
def Set(k): return ("set", k)
def Array(nd=1, kind="real"): return ("array", nd, kind) if kind != "real" else ("array", nd)
def Fun(*ts): return ("fun", list(ts[:-1]), ts[-1])
def Obj(ref, **kw): return ("obj", ref, kw)
def Const(v): return ("const", v)
def Made(fn, **kw): return ("made", fn, kw)
def NT(ref, *ts): return ("nt", ref, list(ts))


TYPE_NS = dict(Int=Int, Nat=Nat, Real=Real, Bool=Bool, Str=Str, List=List, TupleList=TupleList, Tuple=Tuple, Dict=Dict,
               Set=Set, Array=Array, Fun=Fun, Obj=Obj, Const=Const, Made=Made, NT=NT)
D = {}

def d(name):
    def w(fn):
        D[name] = PyF(fn, name)
        return fn
    return w


def tz(e, v):
    """value -> z3 Bool"""
    t = e.truth(v) if not (isinstance(v, S) and v.kind == "bool") else v.v
    return z3.BoolVal(t) if isinstance(t, bool) else t


def bound_eval(e, consts, guards, f, args=None):
    """evaluate contract predicate f at bound constants; returns merged value"""
    vals = [S(c) for c in consts]

    def at():
        return e.merged(lambda: e.call(f, vals, {}, None))
    if len(consts) == 1:
        return e.generic(consts[0], guards or [z3.BoolVal(True)], at)
    return e.generic(consts[0], [z3.BoolVal(True)], lambda: e.generic(consts[1], guards, at))


@d("assume")
def _assume(e, a, k, node):
    t = tz(e, a[0])
    if e.applying:
        e.add_ob(f"precondition of {e.applying[-1]}", t, node)
        e.assume_x(t)
    else:
        e.assume(t)
    return NONE


@d("check")
def _check(e, a, k, node):
    t = tz(e, a[1])
    if e.applying:
        e.assume(t)
        return NONE
    e.add_ob("ensures " + str(a[0].v), t, node)
    e.nchecks += 1
    e.assume(t)          # later obligations may use earlier ones (each is discharged on its own)
    return NONE


@d("known")
def _known(e, a, k, node):
    """fact about mathematics supplied by the contract author: trusted, recorded"""
    e.trusted_used.add("stated fact: " + str(a[0].v))
    e.assume(tz(e, a[1]))
    return NONE


@d("forall")
def _forall(e, a, k, node):
    lo, hi, f = zi(a[0]), zi(a[1]), a[2]
    lo_, hi_ = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo_) and z3.is_int_value(hi_) and hi_.as_long() - lo_.as_long() <= 24:
        rs = [tz(e, e.merged(lambda i=i: e.call(f, [S(i)], {}, None))) for i in range(lo_.as_long(), hi_.as_long())]
        return S(z3.And(*rs)) if rs else S(True)
    j = e.const("q")
    g = [lo <= j, j < hi]
    p = tz(e, bound_eval(e, [j], g, f))
    return S(z3.ForAll([j], z3.Implies(z3.And(*g), p)))


@d("exists")
def _exists(e, a, k, node):
    lo, hi, f = zi(a[0]), zi(a[1]), a[2]
    j = e.const("q")
    g = [lo <= j, j < hi]
    p = tz(e, bound_eval(e, [j], g, f))
    return S(z3.Exists([j], z3.And(*g, p)))


@d("forall_int")
def _forall_int(e, a, k, node):
    """forall integers; second argument: candidate values used at run time"""
    f = a[-1]
    j = e.const("q")
    p = tz(e, bound_eval(e, [j], [], f))
    return S(z3.ForAll([j], p))


@d("forall_real")
def _forall_real(e, a, k, node):
    f = a[-1]
    j = e.const("q", z3.RealSort())
    p = tz(e, bound_eval(e, [j], [], f))
    return S(z3.ForAll([j], p))


@d("forall_keys")
def _forall_keys(e, a, k, node):
    c = e.content(a[0])
    f = a[1]
    if isinstance(c, CMap):
        rs = [tz(e, e.merged(lambda x=x: e.call(f, [x], {}, None))) for x, _ in c.pairs]
        return S(z3.And(*rs)) if rs else S(True)
    kx, dom = (c.kx, c.dom) if isinstance(c, MapV) else (c.kx, c.mem)
    j = e.const("q", kx.sort())
    g = [z3.substitute(dom, (kx, j))]
    p = tz(e, bound_eval(e, [j], g, f))
    return S(z3.ForAll([j], z3.Implies(g[0], p)))


@d("count")
def _count(e, a, k, node):
    lo, hi, f = zi(a[0]), zi(a[1]), a[2]
    j = e.const("q")
    lo_ = z3.simplify(lo)
    zero = z3.is_int_value(lo_) and lo_.as_long() == 0
    p = bound_eval(e, [j], [lo <= j, j < hi], f)
    p = S(tz(e, p))
    return between(e, j, S(z3.If(p.v, z3.IntVal(1), z3.IntVal(0))), lo, hi)


def between(e, j, t, lo, hi):
    """sum of t(j) for lo <= j < hi as a difference of prefix sums (lo >= 0)"""
    lo_ = z3.simplify(lo)
    r = e.sum_over(j, t, hi)
    if z3.is_int_value(lo_) and lo_.as_long() == 0:
        return r
    if e.check_feasible(lo < 0):
        raise Unsupported("sum from a possibly negative index")
    r2 = e.sbin(ast.Sub(), r, e.sum_over(j, t, lo))
    if e.check_feasible(lo > hi):
        return e.ite(lo > hi, S(0) if r2.kind != "real" else S(z3.RealVal(0)), r2)
    return r2


@d("total")
def _total(e, a, k, node):
    lo, hi, f = zi(a[0]), zi(a[1]), a[2]
    lo_, hi_ = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo_) and z3.is_int_value(hi_) and hi_.as_long() - lo_.as_long() <= 24:
        r = S(0)
        for i in range(lo_.as_long(), hi_.as_long()):
            r = e.sbin(ast.Add(), r, e.merged(lambda: e.call(f, [S(i)], {}, None)))
        return r
    j = e.const("q")
    p = bound_eval(e, [j], [lo <= j, j < hi], f)
    return between(e, j, p, lo, hi)


@d("product")
def _product(e, a, k, node):
    """product of f(j) for 0 <= j < n"""
    n, f = zi(a[0]), a[1]
    j = e.const("q")
    p = bound_eval(e, [j], [z3.IntVal(0) <= j, j < n], f)
    s = e.const("pt")
    return S(T.ProdR(z3.Lambda([s], z3.substitute(zr(p), (j, s))), n))


@d("count_keys")
def _count_keys(e, a, k, node):
    """number of elements u of a finite set/map (keys) with P(u)"""
    c = e.content(a[0])
    f = a[1]
    if isinstance(c, CMap) and not c.pairs:
        return S(0)
    if isinstance(c, CMap):
        r = S(0)
        for x, _ in c.pairs:
            r = e.sbin(ast.Add(), r, S(z3.If(tz(e, e.merged(lambda: e.call(f, [x], {}, None))), 1, 0)))
        return r
    kx, dom = (c.kx, c.dom) if isinstance(c, MapV) else (c.kx, c.mem)
    j = e.const("q", kx.sort())
    g = [z3.substitute(dom, (kx, j))]
    p = tz(e, bound_eval(e, [j], g, f))
    return S(e.card_fn(kx.sort())(z3.Lambda([j], z3.And(g[0], p))))


@d("count_where")
def _count_where(e, a, k, node):
    """number of integers v with P(v); the candidates are only used at run time"""
    f = a[1]
    j = e.const("q")
    p = tz(e, bound_eval(e, [j], [], f))
    return S(T.CardI(z3.Lambda([j], p)))


@d("eq")
def _eq(e, a, k, node):
    r = e.veq(a[0], a[1])
    return S(r)


@d("close")
def _close(e, a, k, node):
    return S(e.veq(a[0], a[1]))


@d("lt")
def _lt(e, a, k, node):
    return e.cmp(ast.Lt(), a[0], a[1], node)


@d("le")
def _le(e, a, k, node):
    return e.cmp(ast.LtE(), a[0], a[1], node)


@d("implies")
def _implies(e, a, k, node):
    p = tz(e, a[0])
    if z3.is_false(p):
        return S(True)
    v = a[1]
    if isinstance(v, (FuncV, Bound)):
        if z3.is_true(z3.simplify(p)):
            return e.call(v, [], {}, node)
        # evaluate the consequent under the antecedent
        mark = len(e.pc)
        e.pc.append(("r", p))
        try:
            q = tz(e, e.merged(lambda: e.call(v, [], {}, node)))
        except EndPath:
            return S(z3.Not(p))
        finally:
            new = e.pc[mark + 1:]
            del e.pc[mark:]
            for kk, t in new:
                e.pc.append((kk if kk == "x" else "f", z3.Implies(p, t)))
        return S(z3.Implies(p, q))
    return S(z3.Implies(p, tz(e, v)))


@d("iff")
def _iff(e, a, k, node):
    return S(tz(e, a[0]) == tz(e, a[1]))


@d("ghost")
def _ghost(e, a, k, node):
    c = e.content(a[0])
    g = getattr(c, "ghost", None)
    if g is None:
        raise Unsupported("object without ghost constructor arguments")
    return g[a[1].v]


@d("check_induct")
def _induct(e, a, k, node):
    """prove P(k) for all lo <= k < hi by induction (upwards from lo, or downwards from hi-1)"""
    name, lo, hi, f = a[0].v, zi(a[1]), zi(a[2]), a[3]
    down = "down" in k and k["down"].v
    if e.applying:
        e.assume(tz(e, _forall(e, [S(lo), S(hi), f], {}, node)))
        return NONE
    j = e.const("ind")
    g = [lo <= j, j < hi]
    p = tz(e, bound_eval(e, [j], g, f))
    first = hi - 1 if down else lo
    e.add_ob(f"ensures {name} (induction base)", z3.Implies(lo < hi, z3.substitute(p, (j, first))), node)
    nxt = j - 1 if down else j + 1
    hy = e.hyps() + g + [p, z3.And(lo <= nxt, nxt < hi)]
    for i, aid in enumerate(k[x] for x in ("aid", "aid2") if x in k):
        # a fact at the new index, itself an obligation; the step then follows from the facts and the hypothesis alone
        q = z3.substitute(tz(e, bound_eval(e, [j], [lo <= j, j < hi], aid)), (j, nxt))
        e.add_ob(f"ensures {name} (induction, auxiliary fact {i + 1})", q, node, hyps=(e.hyps() if i == 0 else []) + g + [z3.And(lo <= nxt, nxt < hi)])
        if i == 0:
            hy = g + [p, z3.And(lo <= nxt, nxt < hi)]
        hy = hy + [q]
    e.add_ob(f"ensures {name} (induction step)", z3.substitute(p, (j, nxt)), node, hyps=hy)
    e.nchecks += 1
    e.assume(z3.ForAll([j], z3.Implies(z3.And(*g), p)))
    for x in (lo, hi - 1):
        e.assume(z3.Implies(lo < hi, z3.substitute(p, (j, z3.simplify(x)))))
    return NONE


@d("expect_raises")
def _expect(e, a, k, node):
    exc = a[0]
    want = getattr(exc, "name", None) or getattr(exc, "path", None) or str(exc)
    if isinstance(exc, S):
        want = exc.v
    want = want.split(".")[-1]
    if e.applying:
        return NONE
    e.try_stack.append(["BaseException"])
    try:
        res = e.nested(lambda: e.call(a[1], [], {}, node), export=False)
    finally:
        e.try_stack.pop()
    e.nchecks += 1
    good = 0
    for r in res:
        if r["out"] == "raise" and r["value"].name == want:
            good += 1
            continue
        e.add_ob(f"ensures raises {want}", z3.BoolVal(False), node, hyps=e.hyps() + r["gconds"] + r["facts"])
    e.trivial = getattr(e, "trivial", 0) + good
    return NONE


@d("unknown")
def _unknown(e, a, k, node):
    from . import frame
    return frame.unknown(e)


@d("merged")
def _merged(e, a, k, node):
    """value of a thunk without lasting effects, its paths merged into one"""
    return e.merged(lambda: e.call(a[0], [], {}, node))


@d("hint")
def _hint(e, a, k, node):
    e.hints.append(a[0])
    return NONE


@d("fresh")
def _fresh(e, a, k, node):
    """fresh(type, name): arbitrary value (run time: taken from the generator)"""
    raise Unsupported("fresh")


@d("named")
def _named(e, a, k, node):
    """the same value under a fresh name: components become function symbols with their definition as a fact"""
    c = e.freeze(a[0])
    if isinstance(c, S):
        t = e.fresh("nm", zany(c).sort())
        e.assume(t == zany(c))
        return S(t)
    if isinstance(c, (GSeq, Flat)):
        c = e.to_plain(c)
    if isinstance(c, Nd):
        t = e.fresh("nm", zany(c.el).sort(), c.ixs)
        rng = [z3.And(0 <= i, i < zi(d)) for i, d in zip(c.ixs, c.shape)]
        e.assume(z3.ForAll(c.ixs, z3.Implies(z3.And(*rng), t == zany(c.el)), patterns=[t]))
        return e.thaw(Nd(c.shape, c.ixs, S(t)))
    if isinstance(c, CSeq):
        return e.thaw(CSeq([e.freeze(_named(e, [x], {}, node)) for x in c.items], c.kind))
    if isinstance(c, Seq) and isinstance(c.el, S):
        t = e.fresh("nm", zany(c.el).sort(), [c.ix])
        e.assume(z3.ForAll([c.ix], z3.Implies(z3.And(0 <= c.ix, c.ix < zi(c.n)), t == zany(c.el)), patterns=[t]))
        return e.thaw(Seq(c.n, c.ix, S(t), c.kind))
    raise Unsupported("named value")


@d("body")
def _body(e, a, k, node):
    """the real function of the contract being verified / a fresh result when the contract is applied"""
    con = e.cur_contract[-1]
    if e.applying:
        ty = con.returns
        if con.functional is not None:
            return functional_result(e, con, a)
        return e.make(ty, "result_" + con.qual.split(".")[-1])
    pre = dict(e.heap)
    sv = e.verifying
    e.verifying = frozenset(sv | {con.qual})
    try:
        r = e.call(con.target(e), a, k, node)
    finally:
        e.verifying = sv
    if con.pure:
        for cid, c in pre.items():
            if e.heap.get(cid) is not c and not same_cell(e, c, e.heap.get(cid)):
                e.add_ob("frame: arguments unchanged", z3.BoolVal(False), node)
    return r


def functional_result(e, con, a):
    """deterministic callee: its result is a function of the state of the receiver and of the scalar arguments"""
    names = [x.arg for x in con.node.args.args]
    terms, state, keep = [], [con.qual], []
    for n, v in zip(names, a):
        if n in con.functional:
            terms.append(zr(v) if con.types[n][0] == "real" else zany(v))
        else:
            state_key(e, v, state, keep, set())
    key = tuple(state)
    if key not in e.fun_cache:
        e.fun_cache[key] = ({}, keep)
    table = e.fun_cache[key][0]

    def build(ty, path):
        if ty[0] == "tuple":
            return Tup([build(t, path + (i,)) for i, t in enumerate(ty[1])])
        if ty[0] == "nt":
            return Tup([build(t, path + (i,)) for i, t in enumerate(ty[2])], e.find_class_any(ty[1]))
        if path not in table:
            srt = {"int": z3.IntSort(), "nat": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[ty[0]]
            table[path] = z3.Function(e.name("fn_" + con.name), *[t.sort() for t in terms], srt)
        return S(table[path](*terms))
    return build(con.returns, ())


def state_key(e, v, out, keep, seen):
    if isinstance(v, Ref):
        if v.cid in seen:
            return
        seen.add(v.cid)
        c = e.heap[v.cid]
        keep.append(c)
        if isinstance(c, ObjCell):
            out.append(c.cls.name if hasattr(c.cls, "name") else str(c.cls))
            for f in sorted(c.fields):
                out.append(f)
                state_key(e, c.fields[f], out, keep, seen)
        else:
            out.append(id(c))
    elif isinstance(v, S):
        out.append(("c", v.v) if v.conc else ("t", v.v.get_id()))
        keep.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            state_key(e, x, out, keep, seen)
    elif isinstance(v, ObjVal):
        for f in sorted(v.fields):
            out.append(f)
            state_key(e, v.fields[f], out, keep, seen)
    else:
        out.append(id(v))
        keep.append(v)


def same_cell(e, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, ObjCell):
        return a.fields.keys() == b.fields.keys() and all(a.fields[k] is b.fields[k] for k in a.fields)
    return False
