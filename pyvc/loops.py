"""Loops of symbolic length.

The state at the start of iteration j is a family of fresh symbols p(j).  The body is executed once on that
arbitrary state (dry run), which yields the transition p(j+1) = h(j, p(j)).  Components whose transition has a
recognised shape (unchanged, overwritten, additive, multiplicative, append, set/map insertion, write-once cells,
running maximum/minimum) get their exact closed form; others stay symbols constrained by the recurrence and by
inductive invariants (candidates filtered by Houdini; every kept invariant is inductive).  The body is then
executed again on the closed form with obligations enabled."""
import ast
from fractions import Fraction
import z3
from .values import *
from .engine import *
from .engine import Env, has_quant, contains_term
from . import theory as T


def assigned_names(stmts):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(s):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                tgt(t)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            tgt(s.target)
        elif isinstance(s, ast.For):
            tgt(s.target)
        elif isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if s.name not in out:
                out.append(s.name)
            return
        elif isinstance(s, ast.ExceptHandler) and s.name:
            pass
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.NamedExpr):
                tgt(c.target)
            if isinstance(c, (ast.stmt, ast.ExceptHandler)):
                walk(c)
            elif isinstance(c, ast.expr):
                for n in ast.walk(c):
                    if isinstance(n, ast.NamedExpr):
                        tgt(n.target)
    for s in stmts:
        walk(s)
    return out


# ------------------------------------------------------------------ shapes
def shape(e, v):
    """shape of a frozen value"""
    if isinstance(v, S):
        if v.kind == "inf":
            raise Unsupported("infinity as loop state")
        return ("s", v.kind)
    if isinstance(v, NoneV):
        return ("none",)
    if isinstance(v, Tup):
        return ("tup", [shape(e, x) for x in v.items], v.cls)
    if isinstance(v, CSeq):
        if not v.items:
            return ("seq", None, v.kind)
        return ("cseq", [shape(e, x) for x in v.items], v.kind)
    if isinstance(v, Seq):
        return ("seq", None if v.el is None else shape(e, v.el), v.kind)
    if isinstance(v, GSeq):
        return ("seq", shape(e, v.el), v.kind)
    if isinstance(v, Flat):
        b = shape(e, v.block)
        if b[0] == "cseq":
            b = ("seq", b[1][0] if b[1] else None, "list")
        return ("seq", b[1], v.kind)
    if isinstance(v, MapV):
        return ("map", v.kx.sort(), None if v.val is None else shape(e, v.val), v.default)
    if isinstance(v, CMap):
        if not v.pairs:
            return ("map", None, None, v.default)
        return ("cmap", [k for k, _ in v.pairs], [shape(e, x) for _, x in v.pairs], v.default)
    if isinstance(v, SetV):
        return ("set", None if z3.is_false(v.mem) else v.kx.sort())
    if isinstance(v, Nd):
        return ("nd", list(v.shape), v.el.kind)
    if isinstance(v, ObjVal):
        return ("obj", v.cls, {k: shape(e, x) for k, x in v.fields.items()}, None)
    return ("const", v)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == "s" and b[0] == "s":
        if a[1] == b[1]:
            return a
        if {a[1], b[1]} <= {"int", "real", "bool"}:
            return ("s", "real" if "real" in (a[1], b[1]) else "int")
        raise Unsupported("loop variable changes type")
    if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
        return ("tup", [join(x, y) for x, y in zip(a[1], b[1])], a[2] or b[2])
    if a[0] == "cseq" and b[0] == "cseq" and len(a[1]) == len(b[1]):
        return ("cseq", [join(x, y) for x, y in zip(a[1], b[1])], a[2])
    if a[0] in ("seq", "cseq") and b[0] in ("seq", "cseq"):
        def el(x):
            if x[0] == "seq":
                return x[1]
            r = None
            for y in x[1]:
                r = join(r, y)
            return r
        return ("seq", join(el(a), el(b)), a[2])
    if a[0] == "cmap" and b[0] == "cmap" and [k.v for k in a[1]] == [k.v for k in b[1]]:
        return ("cmap", a[1], [join(x, y) for x, y in zip(a[2], b[2])], a[3])
    if a[0] in ("map", "cmap") and b[0] in ("map", "cmap"):
        def parts(x):
            if x[0] == "map":
                return x[1], x[2]
            r = None
            for y in x[2]:
                r = join(r, y)
            return zany(x[1][0]).sort(), r
        (ka, va), (kb, vb) = parts(a), parts(b)
        return ("map", ka if ka is not None else kb, join(va, vb), a[3])
    if a[0] == "set" and b[0] == "set":
        if a[1] is None or b[1] is None:
            return a if b[1] is None else b
        return b if b[1] == z3.RealSort() else a
    if a[0] == "nd" and b[0] == "nd" and len(a[1]) == len(b[1]):
        return ("nd", a[1], "real" if "real" in (a[2], b[2]) else a[2])
    if a[0] == "obj" and b[0] == "obj" and a[1] is b[1]:
        fs = {k: join(a[2].get(k), b[2].get(k)) for k in list(a[2]) + [k for k in b[2] if k not in a[2]]}
        return ("obj", a[1], fs, a[3])
    if a[0] == b[0] == "none":
        return a
    if a[0] == "const" and b[0] == "const":
        return a
    raise Unsupported(f"loop variable changes shape {a[0]}/{b[0]}")


def same_shape(a, b):
    return repr_shape(a) == repr_shape(b)


def repr_shape(a):
    if a is None:
        return "?"
    if a[0] == "s":
        return a[1]
    if a[0] in ("tup", "cseq"):
        return f"{a[0]}({','.join(map(repr_shape, a[1]))})"
    if a[0] == "seq":
        return f"seq({repr_shape(a[1])})"
    if a[0] == "map":
        return f"map({a[1]},{repr_shape(a[2])})"
    if a[0] == "cmap":
        return f"cmap({','.join(map(repr_shape, a[2]))})"
    if a[0] == "set":
        return f"set({a[1]})"
    if a[0] == "nd":
        return f"nd{len(a[1])}{a[2]}"
    if a[0] == "obj":
        return "obj(" + ",".join(f"{k}:{repr_shape(x)}" for k, x in sorted(a[2].items())) + ")"
    return a[0]


SORT = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "str": z3.StringSort()}


def mk(e, sh, hint, args):
    """fresh value of a shape; symbols are functions of e.bound + args"""
    k = sh[0]
    if k == "s":
        return S(e.fresh(hint, SORT[sh[1]], args))
    if k == "none":
        return NONE
    if k == "tup":
        return Tup([mk(e, x, f"{hint}.{i}", args) for i, x in enumerate(sh[1])], sh[2])
    if k == "cseq":
        return CSeq([mk(e, x, f"{hint}[{i}]", args) for i, x in enumerate(sh[1])], sh[2])
    if k == "seq":
        n = e.fresh(hint + ".len", z3.IntSort(), args)
        ix = e.const("ix")
        return Seq(n, ix, None if sh[1] is None else mk(e, sh[1], hint + "[]", list(args) + [ix]), sh[2])
    if k == "map":
        if sh[1] is None:
            return CMap([], sh[3])
        kx = e.const("kx", sh[1])
        return MapV(kx, e.fresh(hint + ".dom", z3.BoolSort(), list(args) + [kx]),
                    None if sh[2] is None else mk(e, sh[2], hint + "{}", list(args) + [kx]), sh[3])
    if k == "cmap":
        return CMap([(kk, mk(e, x, f"{hint}{{{kk.v}}}", args)) for kk, x in zip(sh[1], sh[2])], sh[3])
    if k == "set":
        if sh[1] is None:
            return SetV(e.const("kx"), z3.BoolVal(False))
        kx = e.const("kx", sh[1])
        return SetV(kx, e.fresh(hint + ".mem", z3.BoolSort(), list(args) + [kx]))
    if k == "nd":
        ixs = [e.const("ix") for _ in sh[1]]
        return Nd(sh[1], ixs, S(e.fresh(hint, SORT[sh[2]], list(args) + ixs)))
    if k == "obj":
        return ObjVal(sh[1], {f: mk(e, x, f"{hint}.{f}", args) for f, x in sh[2].items()}, sh[3])
    if k == "const":
        return sh[1]
    raise Unsupported(f"shape {k}")


def box(e, v):
    """allocate mutable cells for a frozen value held by a variable"""
    return e.thaw(v)


def promote_set(e, v):
    """set of ints -> set of reals"""
    if v.kx.sort() != z3.IntSort():
        return v
    kx = e.const("kx", z3.RealSort())

    def conv(t):
        if z3.is_true(t) or z3.is_false(t) or not contains_term(t, v.kx):
            return t
        if z3.is_or(t):
            return z3.Or(*[conv(x) for x in t.children()])
        if z3.is_eq(t) and (t.arg(0).eq(v.kx) or t.arg(1).eq(v.kx)):
            o = t.arg(1) if t.arg(0).eq(v.kx) else t.arg(0)
            if not contains_term(o, v.kx):
                return kx == z3.simplify(z3.ToReal(o))
        return z3.And(z3.IsInt(kx), z3.substitute(t, (v.kx, z3.ToInt(kx))))
    return SetV(kx, conv(v.mem))


def align(e, v, sh):
    """coerce a frozen value to a shape (CSeq -> Seq, int -> real ...)"""
    k = sh[0]
    if k == "s":
        if not isinstance(v, S):
            raise Unsupported("loop value shape")
        if sh[1] == "real":
            return S(Fraction(v.v)) if v.conc else S(zr(v))
        if sh[1] == "int" and v.kind == "bool":
            return S(int(v.v)) if v.conc else S(zi(v))
        return v
    if k == "tup":
        return Tup([align(e, x, y) for x, y in zip(v.items, sh[1])], v.cls)
    if k == "cseq":
        return CSeq([align(e, x, y) for x, y in zip(v.items, sh[1])], v.kind)
    if k == "seq":
        if isinstance(v, (GSeq, Flat)):
            v = e.to_plain(v)
        if isinstance(v, CSeq):
            ix = e.const("ix")
            if not v.items:
                return Seq(z3.IntVal(0), ix, None if sh[1] is None else dummy(e, sh[1]), v.kind)
            return Seq(z3.IntVal(len(v.items)), ix, align(e, e.seq_get_raw(v, ix), sh[1]), v.kind)
        if v.el is None:
            return Seq(zi(v.n), v.ix, None if sh[1] is None else dummy(e, sh[1]), v.kind)
        return Seq(zi(v.n), v.ix, align(e, v.el, sh[1]), v.kind, v.perm)
    if k == "map":
        if sh[1] is None:
            return v
        if isinstance(v, CMap):
            if not v.pairs:
                kx = e.const("kx", sh[1])
                return MapV(kx, z3.BoolVal(False), None if sh[2] is None else dummy(e, sh[2]), v.default)
            v = e.to_mapv(v)
        if v.val is None:
            return MapV(v.kx, v.dom, None if sh[2] is None else dummy(e, sh[2]), v.default, v.order)
        return MapV(v.kx, v.dom, align(e, v.val, sh[2]), v.default, v.order)
    if k == "cmap":
        return CMap([(kk, align(e, x, y)) for (kk, x), y in zip(v.pairs, sh[2])], v.default)
    if k == "set":
        if sh[1] is not None and z3.is_false(v.mem):
            return SetV(e.const("kx", sh[1]), v.mem)
        return promote_set(e, v) if sh[1] == z3.RealSort() else v
    if k == "nd":
        return Nd(v.shape, v.ixs, align(e, v.el, ("s", sh[2])))
    if k == "obj":
        if not isinstance(v, ObjVal):
            raise Unsupported("loop value shape")
        return ObjVal(v.cls, {f: align(e, v.fields[f], x) if f in v.fields else dummy(e, x) for f, x in sh[2].items()}, v.ghost)
    return v


def dummy(e, sh):
    k = sh[0]
    if k == "s":
        return {"int": S(0), "real": S(Fraction(0)), "bool": S(False), "str": S("")}[sh[1]]
    if k == "tup":
        return Tup([dummy(e, x) for x in sh[1]], sh[2])
    if k == "cseq":
        return CSeq([dummy(e, x) for x in sh[1]], sh[2])
    if k == "seq":
        return Seq(z3.IntVal(0), e.const("ix"), None if sh[1] is None else dummy(e, sh[1]), sh[2])
    if k == "map":
        if sh[1] is None:
            return CMap([], sh[3])
        return MapV(e.const("kx", sh[1]), z3.BoolVal(False), None if sh[2] is None else dummy(e, sh[2]), sh[3])
    if k == "set":
        return SetV(e.const("kx") if sh[1] is None else e.const("kx", sh[1]), z3.BoolVal(False))
    if k == "nd":
        return Nd(sh[1], [e.const("ix") for _ in sh[1]], dummy(e, ("s", sh[2])))
    if k == "obj":
        return ObjVal(sh[1], {f: dummy(e, x) for f, x in sh[2].items()}, sh[3])
    return NONE


# ------------------------------------------------------------------ leaves
class Leaf:
    """one scalar-valued component: template constants args, kind"""
    def __init__(self, path, args, p, h, init, role):
        self.path, self.args, self.p, self.h, self.init, self.role = path, args, p, h, init, role


def leaves(e, p, h, init, path, args, out):
    if isinstance(p, S):
        out.append(Leaf(path, list(args), p, h, init, "s"))
    elif isinstance(p, NoneV) or p is None:
        pass
    elif isinstance(p, (Tup, CSeq)):
        for i, (a, b, c) in enumerate(zip(p.items, h.items, init.items)):
            leaves(e, a, b, c, path + (i,), args, out)
    elif isinstance(p, CMap):
        for i, ((_, a), (_, b), (_, c)) in enumerate(zip(p.pairs, h.pairs, init.pairs)):
            leaves(e, a, b, c, path + (i,), args, out)
    elif isinstance(p, Seq):
        out.append(Leaf(path + ("len",), list(args), S(zi(p.n)), S(zi(h.n)), S(zi(init.n)), "len"))
        if p.el is not None:
            hel = vsub(h.el, (h.ix, p.ix)) if h.el is not None else None
            iel = vsub(init.el, (init.ix, p.ix)) if init.el is not None else None
            leaves(e, p.el, hel, iel, path + ("el",), list(args) + [p.ix], out)
    elif isinstance(p, MapV):
        out.append(Leaf(path + ("dom",), list(args) + [p.kx], S(p.dom), S(z3.substitute(h.dom, (h.kx, p.kx))),
                        S(z3.substitute(init.dom, (init.kx, p.kx))), "dom"))
        if p.val is not None:
            leaves(e, p.val, vsub(h.val, (h.kx, p.kx)), vsub(init.val, (init.kx, p.kx)), path + ("val",), list(args) + [p.kx], out)
    elif isinstance(p, SetV):
        out.append(Leaf(path + ("mem",), list(args) + [p.kx], S(p.mem), S(z3.substitute(h.mem, (h.kx, p.kx))),
                        S(z3.substitute(init.mem, (init.kx, p.kx))), "dom"))
    elif isinstance(p, Nd):
        leaves(e, p.el, vsub(h.el, *zip(h.ixs, p.ixs)), vsub(init.el, *zip(init.ixs, p.ixs)), path + ("nd",), list(args) + p.ixs, out)
    elif isinstance(p, ObjVal):
        for f in p.fields:
            leaves(e, p.fields[f], h.fields[f], init.fields[f], path + (f,), args, out)


def rebuild(p, path, get):
    """value shaped like p with leaf terms replaced by get(path, args_template_terms)"""
    if isinstance(p, S):
        return get(path)
    if isinstance(p, NoneV) or p is None:
        return p
    if isinstance(p, Tup):
        return Tup([rebuild(x, path + (i,), get) for i, x in enumerate(p.items)], p.cls)
    if isinstance(p, CSeq):
        return CSeq([rebuild(x, path + (i,), get) for i, x in enumerate(p.items)], p.kind)
    if isinstance(p, CMap):
        return CMap([(k, rebuild(x, path + (i,), get)) for i, (k, x) in enumerate(p.pairs)], p.default)
    if isinstance(p, Seq):
        n = get(path + ("len",))
        nv = n.v if not n.conc else z3.IntVal(int(n.v))
        return Seq(nv, p.ix, None if p.el is None else rebuild(p.el, path + ("el",), get), p.kind)
    if isinstance(p, MapV):
        return MapV(p.kx, zb(get(path + ("dom",))), None if p.val is None else rebuild(p.val, path + ("val",), get), p.default)
    if isinstance(p, SetV):
        return SetV(p.kx, zb(get(path + ("mem",))))
    if isinstance(p, Nd):
        return Nd(p.shape, p.ixs, rebuild(p.el, path + ("nd",), get))
    if isinstance(p, ObjVal):
        return ObjVal(p.cls, {f: rebuild(x, path + (f,), get) for f, x in p.fields.items()}, p.ghost)
    return p


# ------------------------------------------------------------------ recurrence solving
def occurs(t, decls):
    """does any of the function decl names occur in t?"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() in decls:
                return True
            stack.extend(x.children())
    return False


def unguarded(c, p):
    """p(k) or (k == v and not p(v) and ...) is p(k) or (k == v and ...): drops the guard not p(v)"""
    cs = split_conj(c)
    eqs = []
    for x in cs:
        if z3.is_eq(x):
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if any(a.eq(q) for q in p.children()):
                    eqs.append((a, b))
    out = []
    for x in cs:
        if z3.is_not(x) and any(z3.substitute(p, (a, b)).eq(x.arg(0)) or x.arg(0).eq(p) for a, b in eqs):
            continue
        out.append(x)
    return c if len(out) == len(cs) else z3.And(*out) if len(out) > 1 else out[0]


def diff(p, h):
    """h - p when h is p plus something, else None"""
    if h.eq(p):
        return z3.IntVal(0) if p.sort() == z3.IntSort() else z3.RealVal(0)
    if z3.is_app(h):
        k = h.decl().kind()
        if k == z3.Z3_OP_ITE:
            a, b = diff(p, h.arg(1)), diff(p, h.arg(2))
            if a is None or b is None:
                return None
            return z3.If(h.arg(0), a, b)
        if k == z3.Z3_OP_ADD:
            ch = h.children()
            has = [i for i, c in enumerate(ch) if contains_term(c, p)]
            if len(has) != 1:
                return None
            d = diff(p, ch[has[0]])
            if d is None:
                return None
            rest = [c for i, c in enumerate(ch) if i != has[0]]
            r = rest[0]
            for c in rest[1:]:
                r = r + c
            return r if is_zero(d) else d + r
        if k == z3.Z3_OP_SUB and h.num_args() == 2:
            if contains_term(h.arg(1), p):
                return None
            d = diff(p, h.arg(0))
            return None if d is None else (-h.arg(1) if is_zero(d) else d - h.arg(1))
        if k == z3.Z3_OP_TO_REAL and z3.is_to_real(p):
            return None
    return None


def int_ratio(p, h):
    """h = c * p (or p + p) for a constant c >= 2"""
    if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_MUL and h.num_args() == 2:
        for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
            if a.eq(p) and z3.is_int_value(b) and b.as_long() >= 2:
                return b.as_long()
    if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_ADD and all(c.eq(p) for c in h.children()):
        return h.num_args()
    return None


def ratio(p, h):
    if h.eq(p):
        return z3.RealVal(1)
    if z3.is_app(h):
        k = h.decl().kind()
        if k == z3.Z3_OP_ITE:
            a, b = ratio(p, h.arg(1)), ratio(p, h.arg(2))
            return None if a is None or b is None else z3.If(h.arg(0), a, b)
        if k == z3.Z3_OP_MUL:
            ch = h.children()
            has = [i for i, c in enumerate(ch) if contains_term(c, p)]
            if len(has) != 1:
                return None
            d = ratio(p, ch[has[0]])
            if d is None:
                return None
            for i, c in enumerate(ch):
                if i != has[0]:
                    d = d * c
            return d
    return None


def is_zero(t):
    return (z3.is_int_value(t) or z3.is_rational_value(t)) and t.as_fraction() == 0 if z3.is_rational_value(t) else z3.is_int_value(t) and t.as_long() == 0


def affine(e_, j):
    """e_ = s*j + c with s in {1,-1}: return (s, c) or None"""
    e_ = z3.simplify(e_)
    if e_.eq(j):
        return 1, z3.IntVal(0)
    a = z3.simplify(z3.substitute(e_, (j, z3.IntVal(0))))
    d = z3.simplify(e_ - a)
    for s in (1, -1):
        if z3.simplify(d - s * j).eq(z3.IntVal(0)):
            return s, a
    return None


def invert(eng, eq, j):
    """eq: Bool term equating something j-free with an injective expression of j -> (t, extra cond) with
    eq[j] <-> (j == t and cond), or None"""
    if not (z3.is_eq(eq)):
        return None
    a, b = eq.arg(0), eq.arg(1)
    if contains_term(a, j):
        a, b = b, a
    if contains_term(a, j) or not contains_term(b, j):
        if a.sort() == z3.IntSort():
            # both sides mention j: try affine in the difference
            d = affine(a - b, j)
            if d is not None:
                s, c = d
                return z3.simplify(-s * c), z3.BoolVal(True)
        return None
    if a.sort() == z3.IntSort():
        f = affine(b, j)
        if f is not None:
            s, c = f
            return z3.simplify(s * (a - c)), z3.BoolVal(True)
    if z3.is_app(b) and b.decl().name() in eng.enums:
        kx, dom, px, pos, args, card = eng.enums[b.decl().name()]
        if b.arg(b.num_args() - 1).eq(j):
            sb = [(x, y) for x, y in zip(args, b.children()[:-1])]
            return z3.substitute(pos, (px, a), *sb), z3.substitute(dom, (kx, a), *sb)
    return None


def full_enum(eng, eq, j, n):
    """eq pins j to the position of a key in an enumeration of length n: the range condition is implied by membership"""
    for b in eq.children():
        if z3.is_app(b) and b.decl().name() in eng.enums and b.arg(b.num_args() - 1).eq(j):
            kx, dom, px, pos, args, card = eng.enums[b.decl().name()]
            sb = [(x, y) for x, y in zip(args, b.children()[:-1])]
            if z3.substitute(card, *sb).eq(n) if sb else card.eq(n):
                return True
    return False


def split_conj(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += split_conj(x)
        return out
    return [c]


def point_sum(eng, j, t, n):
    """Sum_{0<=j<n} t(j) when t is If(j pinned by an equality, f, 0): closed form, else None"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and is_zero(t.arg(2))):
        return None
    cs = split_conj(t.arg(0))
    for i, c in enumerate(cs):
        r = invert(eng, c, j)
        if r is None:
            continue
        tt, cond = r
        rest = [x for k, x in enumerate(cs) if k != i]
        sub = lambda x: fold_key(eng, z3.substitute(x, (j, tt)))
        conds = [cond] + ([] if full_enum(eng, c, j, n) else [0 <= tt, tt < n]) + [sub(x) for x in rest]
        return z3.If(z3.And(*conds), sub(t.arg(1)), t.arg(2))
    return None


def fold_key(eng, t):
    """rewrite key(pos(k)) to k (valid under dom(k))"""
    pairs = []
    for nm, (kx, dom, px, pos, _a, _n) in eng.enums.items():
        for ap in T.collect([t], {nm}) + [x for x in apps(t, nm)]:
            last = ap.arg(ap.num_args() - 1)
            if z3.is_app(last) and last.decl().eq(pos.decl()):
                pairs.append((ap, last.arg(last.num_args() - 1)))
    return z3.substitute(t, *pairs) if pairs else t


def apps(t, name):
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() == name:
                out.append(x)
            stack.extend(x.children())
    return out


def sum_upto(eng, j, d, t):
    """S: Sum_{0<=j<t} d(j)"""
    real = d.sort() == z3.RealSort()
    if not contains_term(d, j):
        return (z3.ToReal(t) if real else t) * d
    ps = point_sum(eng, j, d, t)
    if ps is not None:
        return ps
    s = eng.const("st")
    F = T.SumR if real else T.SumI
    return F(z3.Lambda([s], z3.substitute(d, (j, s))), t)


def leaf_decl(leaf):
    return leaf.p.v.decl().name()


class Solver:
    def __init__(self, eng, j, lv, n):
        self.e, self.j, self.lv, self.n = eng, j, lv, n
        self.closed = {}       # id(leaf) -> fn(t z3 Int) -> z3 term over leaf.args
        self.subs = []

    def own(self, l):
        return leaf_decl(l)

    def run(self):
        todo = list(self.lv)
        progress = True
        while todo and progress:
            progress = False
            names = {self.own(l) for l in todo}
            for l in list(todo):
                h = zany(l.h)
                f = self.try_leaf(l, h, names)
                if f is not None:
                    self.closed[id(l)] = f
                    todo.remove(l)
                    progress = True
                    self.substitute(l, f, todo)
                    names = {self.own(x) for x in todo}
        self.open = todo
        return todo

    def substitute(self, l, f, todo):
        """replace applications of l's symbol in the other transitions by its closed form"""
        decl = l.p.v.decl()
        formal = list(l.p.v.children())     # bound..., j, args...
        body = f(self.j)
        vs = [z3.Var(i, a.sort()) for i, a in enumerate(formal)]
        expr = z3.substitute(body, *[(a, v) for a, v in zip(formal, vs)]) if formal else body
        self.subs.append((decl, expr))
        for x in todo:
            if not x.h.conc:
                x.h = S(z3.substitute_funs(x.h.v, (decl, expr)))

    def try_leaf(self, l, h, names):
        e, j = self.e, self.j
        p = l.p.v
        nm = self.own(l)
        init = l.init
        real = p.sort() == z3.RealSort()
        cv = lambda s: zr(s) if real else zany(s)
        iv = cv(init) if init is not None else None
        if real and h.sort() != z3.RealSort():
            h = z3.ToReal(h)
        if h.eq(p):
            return lambda t: iv
        others = names - {nm}
        if occurs(h, others):
            return None
        if not occurs(h, {nm}):
            if iv is None:
                return lambda t: z3.substitute(h, (j, t - 1))
            return lambda t: z3.If(t <= 0, iv, z3.substitute(h, (j, t - 1)))
        if p.sort() == z3.BoolSort():
            return self.bool_leaf(l, h, p, iv, nm)
        if p.sort() not in (z3.IntSort(), z3.RealSort()):
            return self.write_once(l, h, p, iv, nm) if l.args else None
        d = diff(p, h)
        if d is not None and not occurs(d, {nm}):
            # bound variables of d other than j/args are closed
            return lambda t: add(iv, sum_upto(e, j, d, t))
        if not real and p.sort() == z3.IntSort() and not l.args:
            c = int_ratio(p, h)
            if c is not None and z3.is_int_value(z3.simplify(iv)):
                return lambda t: iv * T.PowI(z3.IntVal(c), t)
        if real and not l.args:
            r = ratio(p, h)
            if r is not None and not occurs(r, {nm}):
                def prod(t):
                    s = e.const("pt")
                    return iv * T.ProdR(z3.Lambda([s], z3.substitute(r, (j, s))), t)
                return prod
        f = self.extremum(l, h, p, iv, nm)
        if f is not None:
            return f
        if l.args:
            return self.write_once(l, h, p, iv, nm)
        return None

    def bool_leaf(self, l, h, p, iv, nm):
        e, j = self.e, self.j
        inc = self.or_inc(h, p)
        if inc is not None:
            h = z3.Or(p, *(inc.children() if z3.is_or(inc) else [inc]))
        if z3.is_or(h) and any(c.eq(p) for c in h.children()):
            cs = [unguarded(c, p) for c in h.children() if not c.eq(p)]
            if any(occurs(c, {nm}) for c in cs):
                return None
            c = z3.Or(*cs) if len(cs) > 1 else cs[0]

            def f(t):
                parts = []
                for d in (c.children() if z3.is_or(c) else [c]):
                    parts.append(self.exists_upto(d, t))
                r = [x for x in [iv] + parts if not z3.is_false(x)]
                return z3.Or(*r) if len(r) > 1 else (r[0] if r else z3.BoolVal(False))
            return f
        if z3.is_and(h) and any(c.eq(p) for c in h.children()):
            cs = [c for c in h.children() if not c.eq(p)]
            if any(occurs(c, {nm}) for c in cs):
                return None
            c = z3.And(*cs)

            def g(t):
                s = e.const("at")
                return z3.And(iv, z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < t), z3.substitute(c, (j, s)))))
            return g
        if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_ITE:
            # If(c, Or(p, x), p) etc. -> Or(p, And(c, x))
            c, a, b = h.children()
            inc = self.or_inc(a, p), self.or_inc(b, p)
            if inc[0] is not None and inc[1] is not None:
                parts = []
                if not z3.is_false(inc[0]):
                    parts.append(z3.And(c, inc[0]))
                if not z3.is_false(inc[1]):
                    parts.append(z3.And(z3.Not(c), inc[1]))
                parts = [unguarded(x, p) for x in parts]
                if any(occurs(x, {nm}) for x in parts):
                    return None
                return self.bool_leaf(l, z3.Or(p, *parts), p, iv, nm)
        return None

    def or_inc(self, a, p):
        if a.eq(p):
            return z3.BoolVal(False)
        if z3.is_or(a):
            cs, found = [], False
            for c in a.children():
                i = self.or_inc(c, p)
                if i is None:
                    cs.append(c)
                    continue
                found = True
                cs += [] if z3.is_false(i) else list(i.children()) if z3.is_or(i) else [i]
            if not found:
                return None
            out = []
            for c in cs:
                if not any(c.eq(d) for d in out):
                    out.append(c)
            return z3.BoolVal(False) if not out else z3.Or(*out) if len(out) > 1 else out[0]
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = a.children()
            x, y = self.or_inc(x, p), self.or_inc(y, p)
            if x is None or y is None:
                return None
            parts = ([] if z3.is_false(x) else [z3.And(c, x)]) + ([] if z3.is_false(y) else [z3.And(z3.Not(c), y)])
            if len(parts) == 2 and x.eq(y):
                return x
            return z3.BoolVal(False) if not parts else z3.Or(*parts) if len(parts) > 1 else parts[0]
        return None

    def exists_upto(self, c, t):
        e, j = self.e, self.j
        cs = split_conj(c)
        for i, x in enumerate(cs):
            r = invert(e, x, j)
            if r is not None:
                tt, cond = r
                rest = [fold_key(e, z3.substitute(y, (j, tt))) for k, y in enumerate(cs) if k != i]
                return z3.And(cond, 0 <= tt, tt < t, *rest)
        s = e.const("et")
        return z3.Exists([s], z3.And(0 <= s, s < t, z3.substitute(c, (j, s))))

    def extremum(self, l, h, p, iv, nm):
        """h = If(p REL x, p, x): running max/min"""
        e, j = self.e, self.j
        m = match_extremum(p, h)
        if m is None:
            return None
        ismax, guard, x = m
        if occurs(x, {nm}) or (guard is not None and occurs(guard, {nm})):
            return None
        nmx = e.name("run" + ("max" if ismax else "min"))
        args = [a for a in l.p.v.children() if not a.eq(j)]
        M = z3.Function(nmx, *[a.sort() for a in args], z3.IntSort(), p.sort())
        W = z3.Function(nmx + "_at", *[a.sort() for a in args], z3.IntSort(), z3.IntSort())
        t, s = e.const("t"), e.const("s")
        le = (lambda a, b: a <= b) if ismax else (lambda a, b: a >= b)
        xs = z3.substitute(x, (j, s))
        gs = z3.substitute(guard, (j, s)) if guard is not None else z3.BoolVal(True)
        Mt = M(*args, t)
        w = W(*args, t)
        qargs = [a for a in l.args]
        rng = z3.And(0 <= t, t <= self.n)
        xw = z3.substitute(x, (j, w))
        gw = z3.substitute(guard, (j, w)) if guard is not None else z3.BoolVal(True)
        e.assume(z3.ForAll(qargs + [t], z3.Implies(rng, z3.And(le(iv, Mt), z3.Or(Mt == iv, z3.And(0 <= w, w < t, gw, Mt == xw)))), patterns=[Mt]))
        pats = [z3.MultiPattern(Mt, xs)] if contains_app_of(xs, s) else None
        body = z3.Implies(z3.And(rng, 0 <= s, s < t, gs), le(xs, Mt))
        if pats:
            try:
                e.assume(z3.ForAll(qargs + [t, s], body, patterns=pats))
            except z3.Z3Exception:
                e.assume(z3.ForAll(qargs + [t, s], body))
        else:
            e.assume(z3.ForAll(qargs + [t, s], body))
        return lambda tt: M(*args, tt)

    def write_once(self, l, h, p, iv, nm):
        """el' = If(ix == w(j), v, el): each position written at most once (w injective)"""
        e, j = self.e, self.j
        if not (z3.is_app(h) and h.decl().kind() == z3.Z3_OP_ITE):
            return None
        c, v, rest = h.children()
        if not rest.eq(p):
            return None
        cs = split_conj(c)
        inv = None
        for i, x in enumerate(cs):
            inv = invert(e, x, j)
            if inv is not None:
                other = [y for k, y in enumerate(cs) if k != i]
                break
        if inv is None:
            return None
        tt, cond = inv
        when = z3.And(cond, 0 <= tt, *[fold_key(e, z3.substitute(y, (j, tt))) for y in other])
        if occurs(when, {nm}):
            return None
        vv = fold_key(e, z3.substitute(v, (j, tt)))
        if not occurs(vv, {nm}):
            return lambda t: z3.If(z3.And(when, tt < t), vv, iv)
        # v reads other positions of the array at time tt: final value symbol F(args)
        pargs = list(p.children())
        pre = [a for a in pargs if not any(a.eq(b) for b in l.args) and not a.eq(j)]
        F = z3.Function(e.name("final"), *[a.sort() for a in pre + l.args], p.sort())

        def read(ap):
            # value of the array at position q (args of ap), time tt
            ch = list(ap.children())
            q = ch[len(ch) - len(l.args):]
            sub = list(zip(l.args, q))
            tq = z3.substitute(tt, *sub)
            wq = z3.substitute(when, *sub)
            iq = z3.substitute(iv, *sub)
            return z3.If(z3.And(wq, tq < tt), F(*pre, *q), iq)
        seen = 0
        while True:
            ap = [a for a in apps(vv, nm)]
            if not ap:
                break
            seen += 1
            if seen > 6:
                return None
            a0 = ap[0]
            # innermost: its own children must not contain nm
            inner = [a for a in ap if not any(occurs(c, {nm}) for c in a.children())]
            if not inner:
                return None
            a0 = inner[0]
            if z3.is_var(a0.arg(a0.num_args() - 1)):
                return None
            vv = z3.substitute(vv, (a0, read(a0)))
        Fa = F(*pre, *l.args)
        e.assume(z3.ForAll(l.args, z3.Implies(z3.And(when, tt < self.n), Fa == vv), patterns=[Fa]))
        return lambda t: z3.If(z3.And(when, tt < t), Fa, iv)


def contains_app_of(t, s):
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and contains_term(x, s):
            return True
        if z3.is_app(x):
            stack.extend(x.children())
    return False


def match_extremum(p, h):
    """returns (ismax, guard, x) for h = max(p, x) / min, possibly under a guard If(g, max(p,x), p)"""
    if not (z3.is_app(h) and h.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = h.children()
    neg = False
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    k = c.decl().kind() if z3.is_app(c) else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        l, r = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            l, r = r, l          # now l <= r (or <)
        # condition l<=r
        for (s, t) in ((l, r),):
            if s.eq(p) and a.eq(t) and b.eq(p):
                return True, None, t        # p<=x ? x : p
            if t.eq(p) and a.eq(p) and b.eq(s):
                return True, None, s        # x<=p ? p : x
            if s.eq(p) and a.eq(p) and b.eq(t):
                return False, None, t       # p<=x ? p : x
            if t.eq(p) and a.eq(s) and b.eq(p):
                return False, None, s       # x<=p ? x : p
    if not contains_term(c, p):
        if b.eq(p):
            m = match_extremum(p, a)
            if m:
                return m[0], c if m[1] is None else z3.And(c, m[1]), m[2]
        if a.eq(p):
            m = match_extremum(p, b)
            if m:
                g = z3.Not(c)
                return m[0], g if m[1] is None else z3.And(g, m[1]), m[2]
    return None


def add(a, b):
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    return a + b


# ------------------------------------------------------------------ the loop driver
class Slot:
    pass


def for_loop(e, s, env, seq):
    guard = None
    if isinstance(seq, Flat):
        seq = e.to_plain(seq)
    if isinstance(seq, CSeq):
        n = z3.IntVal(len(seq.items))
        at = lambda j: e.seq_get_raw(seq, j)
    elif isinstance(seq, GSeq):
        n = zi(seq.n)
        at = lambda j: vsub(seq.el, (seq.ix, j))
        guard = lambda j: z3.substitute(seq.guard, (seq.ix, j))
    else:
        n = zi(seq.n)
        at = lambda j: e.seq_get_raw(seq, j)
    tnames = assigned_names([ast.Assign(targets=[s.target], value=None)])

    def body(j):
        if guard is not None:
            if not e.decide(guard(j)):
                return
        e.store(s.target, at(j), env)
        try:
            e.exec_block(s.body, env)
        except ContinueX:
            pass
    run_loop(e, s, env, n, body, tnames + [x for x in assigned_names(s.body) if x not in tnames], None)
    e.exec_block(s.orelse, env)


def has_symbolic_body(e, s, env):
    return False


def while_loop(e, s, env):
    n = e.fresh("iters", z3.IntSort())
    e.assume(n >= 0)

    def body(j):
        t = e.truth(e.ev(s.test, env))
        if isinstance(t, bool):
            if not t:
                raise EndPath()
        else:
            e.assume(t)
        try:
            e.exec_block(s.body, env)
        except ContinueX:
            pass
    test = lambda: e.truth(e.ev(s.test, env))
    run_loop(e, s, env, n, body, assigned_names(s.body), test)


def get_slot(e, env, sl):
    if sl[0] == "var":
        return env.vars.get(sl[1])
    return Ref(sl[1])


def run_loop(e, s, env, n, body, names, wtest):
    cells0 = e.cells
    writes0 = e.writes
    if isinstance(n, int):
        n = z3.IntVal(n)
    # variables assigned in the body, existing in this frame (or new)
    names = [x for x in names]
    pre_vars = dict(env.vars)
    slots, shapes = {}, {}
    pre = {}
    for x in names:
        v = env.vars.get(x)
        pre[("var", x)] = e.freeze(v) if v is not None else None
    cellslots = []
    j = e.const("it")

    def freeze_cell(cid):
        return e.freeze(Ref(cid))

    def havoc(shapes_, names_, cells_):
        """install fresh state symbols at iteration j; returns dict slot -> value"""
        st = {}
        for x in names_:
            sl = ("var", x)
            if sl in shapes_ and shapes_[sl] is not None:
                st[sl] = mk(e, shapes_[sl], x, [])
        for c in cells_:
            st[("cell", c)] = mk(e, shapes_[("cell", c)], f"c{c}", [])
        install(st)
        return st

    def install(st):
        for sl, v in st.items():
            if sl[0] == "var":
                env.vars[sl[1]] = box(e, v)
            else:
                set_cell(sl[1], v)
        for x in names:
            if ("var", x) not in st:
                env.vars.pop(x, None)

    def set_cell(cid, v):
        old = e.heap[cid]
        if isinstance(old, ObjCell):
            f = {}
            for k, x in v.fields.items():
                o = old.fields.get(k)
                # sub-cells that are separate slots keep their reference
                if isinstance(o, Ref) and ("cell", o.cid) in keepref:
                    f[k] = o
                elif isinstance(o, Ref) and k not in changed_fields.get(cid, ()):
                    f[k] = o
                elif k in changed_fields.get(cid, ()):
                    f[k] = box(e, x)
                else:
                    f[k] = o if o is not None else box(e, x)
            e.heap[cid] = ObjCell(old.cls, f, old.ghost)
        elif isinstance(old, ListCell):
            e.heap[cid] = ListCell(e.thaw_in(v) if isinstance(v, CSeq) else v)
        elif isinstance(old, DictCell):
            e.heap[cid] = DictCell(e.thaw_in(v) if isinstance(v, CMap) else v)
        elif isinstance(old, SetCell):
            e.heap[cid] = SetCell(v)
        else:
            e.heap[cid] = NdCell(v)
    keepref, changed_fields = set(), {}

    def body_run(st_install, collect):
        """run body on all local paths from state; returns results with final slot values"""
        def thunk():
            st_install()
            e.writes = set()
            body(j)
            return collect()
        return thunk

    def enter():
        e.bound.append(j)
        e.pc.append(("r", 0 <= j))
        e.pc.append(("r", j < n))

    heap_save = e.heap
    vars_save = dict(env.vars)
    # ---- phase 1: dry runs until the state shape is stable
    cells = []
    for x in names:
        v = env.vars.get(x)
        shapes[("var", x)] = None if v is None else shape(e, e.freeze(v))
    stable = False
    rounds = 0
    e.quiet += 1
    fr_save = set(e.frozen_cells)
    try:
        while not stable:
            rounds += 1
            if rounds > 8:
                raise Unsupported("loop state does not stabilise")
            stable = True
            base = len(e.pc)
            ctr = e.ctr
            enter()
            e.heap = dict(heap_save)
            env.vars = dict(vars_save)
            written = set()
            holder = {}

            def st_install():
                env.vars = dict(vars_save)
                holder["st"] = havoc(shapes, names, cells)

            def collect():
                out = {}
                w = {c for c in e.writes if c <= cells0}
                written.update(w)
                for x in names:
                    v = env.vars.get(x)
                    out[("var", x)] = None if v is None else e.freeze(v)
                for c in set(cells) | w:
                    out[("cell", c)] = freeze_cell(c)
                for c in w:
                    cell = e.heap[c]
                    if isinstance(cell, ObjCell):
                        old = heap_save[c]
                        for f, fv in cell.fields.items():
                            o = old.fields.get(f)
                            if isinstance(o, Ref) and isinstance(fv, Ref) and o.cid == fv.cid:
                                continue
                            if o is fv:
                                continue
                            changed_fields.setdefault(c, set()).add(f)
                return out
            try:
                res = e.nested(body_run(st_install, collect), export=False)
            finally:
                e.bound.pop()
                del e.pc[base:]
                e.heap = heap_save
                env.vars = dict(vars_save)
                e.writes = writes0
                e.frozen_cells = set(fr_save)
            oks = [r for r in res if r["out"] in ("ok", "continue")]
            for c in sorted(written):
                if c not in cells:
                    cells.append(c)
                    if isinstance(heap_save[c], ObjCell):
                        sub = e.freeze(Ref(c))
                    else:
                        sub = freeze_cell(c)
                    shapes[("cell", c)] = shape(e, sub)
                    stable = False
            for r in oks:
                for sl, v in r["value"].items():
                    if v is None:
                        continue
                    ns = join(shapes.get(sl), shape(e, v)) if shapes.get(sl) is not None else shape(e, v)
                    if sl[0] == "var" and pre[sl] is None and shapes.get(sl) is None:
                        # defined only inside the loop: not state unless read before written
                        continue
                    if shapes.get(sl) is None or not same_shape(ns, shapes[sl]):
                        shapes[sl] = ns
                        stable = False
    finally:
        e.quiet -= 1
    for c in cells:
        if isinstance(heap_save[c], ObjCell):
            for f, o in heap_save[c].fields.items():
                if isinstance(o, Ref) and o.cid in cells:
                    keepref.add(("cell", o.cid))

    # ---- phase 2: transition and closed forms
    e.quiet += 1
    try:
        base = len(e.pc)
        enter()
        e.heap = dict(heap_save)
        holder = {}
        ctr1 = e.ctr

        def st_install2():
            env.vars = dict(vars_save)
            e.ctr = ctr1
            holder["st"] = havoc(shapes, names, cells)

        def collect2():
            out = {}
            for x in names:
                v = env.vars.get(x)
                out[("var", x)] = None if v is None else e.freeze(v)
            for c in cells:
                out[("cell", c)] = freeze_cell(c)
            return out
        try:
            res = e.nested(body_run(st_install2, collect2), export=False)
        finally:
            e.bound.pop()
            del e.pc[base:]
            e.heap = heap_save
            env.vars = dict(vars_save)
            e.writes = writes0
            e.frozen_cells = set(fr_save)
    finally:
        e.quiet -= 1
    st = holder["st"]
    oks = [r for r in res if r["out"] in ("ok", "continue")]
    exits = [r for r in res if r["out"] in ("break", "return", "raise")]
    lv_all = {}
    lastdef = {}
    solver_leaves = []
    inits = {}
    if oks:
        for sl, p in st.items():
            sh = shapes[sl]
            hs = [(r["conds"], align(e, r["value"][sl], sh)) for r in oks]
            init0 = pre[sl] if sl[0] == "var" else freeze_cell_in(e, sl[1])
            init = align(e, init0, sh)
            inits[sl] = init
            app = append_form(e, p, hs, j) if isinstance(p, Seq) else None
            if app is not None:
                lv_all[sl] = ("append", p, app, init)
                continue
            h = merge_paths(e, hs)
            ls = []
            leaves(e, p, h, init, (), [], ls)
            lv_all[sl] = ("leaves", p, ls, init)
            solver_leaves += ls
    sol = Solver(e, j, solver_leaves, n)
    # closed forms of appended lists only concern their own symbols; their lengths may occur elsewhere
    for sl, x in lv_all.items():
        if x[0] == "append":
            p, app, init = x[1], x[2], x[3]
            lenf = app["len"]
            l = Leaf(("len",), [], S(p.n), S(p.n), S(zi(init.n)), "len")
            if lenf is not None:
                f = (lambda lenf, init: lambda t: add(zi(init.n), lenf(t)))(lenf, init)
                for q in solver_leaves:
                    pass
                sol.substitute(l, f, solver_leaves)
    open_ = sol.run()
    if any(x[0] == "append" and occurs_any(x[2]["terms"], {leaf_decl(l) for l in open_}) for x in lv_all.values()) and open_:
        pass

    open_decl = {leaf_decl(l) for l in open_}
    # ---- state at iteration t
    own_append = {}
    for sl, x in lv_all.items():
        if x[0] == "append":
            own_append[x[1].n.decl().name()] = sl

    def closed_term(l, t):
        f = sol.closed.get(id(l))
        if f is None:
            return z3.substitute(l.p.v, (j, t)) if is_z(t) else l.p.v
        return fix(f(t))

    def fix(term):
        # substitute remaining solved symbols (they may appear through later-solved leaves)
        for _ in range(4):
            new = term
            for decl, expr in sol.subs:
                new = z3.substitute_funs(new, (decl, expr))
            if new.eq(term):
                break
            term = new
        return term

    def state(t):
        out = {}
        for sl, x in lv_all.items():
            if x[0] == "append":
                out[sl] = append_value(e, x[1], x[2], x[3], j, t, fix)
            else:
                p, ls = x[1], x[2]
                d = {l.path: l for l in ls}
                out[sl] = rebuild(p, (), lambda path: S(z3.simplify(closed_term(d[path], t)) if d[path].role == "len" else closed_term(d[path], t)))
        return out
    # cardinal facts: lengths are non-negative
    if not oks:
        # body always exits: state only at iteration 0
        def state(t):
            return {sl: align(e, pre[sl] if sl[0] == "var" else freeze_cell_in(e, sl[1]), shapes[sl]) for sl in st}

    # facts about symbols introduced by one iteration (definitions; conditional on the iteration's requirements)
    seen_f = set()
    for r in res:
        for k, f in r["gfacts"]:
            if k != "f":
                continue
            f = fix(f)
            if f.get_id() in seen_f:
                continue
            seen_f.add(f.get_id())
            e.keepalive.append(f)
            g = z3.And(0 <= j, j < n)
            if exits:
                q = e.const("eq")
                ea = z3.Or(*[z3.And(*[fix(c) for c in x["conds"]]) if x["conds"] else z3.BoolVal(True) for x in exits])
                g = z3.And(g, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < j), z3.Not(z3.substitute(ea, (j, q))))))
            if contains_term(f, j):
                e.assume(z3.ForAll([j], z3.Implies(g, f)))
            else:
                e.assume(z3.Implies(n > 0, f) if not exits else z3.ForAll([j], z3.Implies(g, f)))

    # ---- phase 3: invariants for open leaves
    invs = []
    if open_:
        # recurrence facts
        for l in open_:
            f = l.p.v
            h = fix(zany(l.h))
            if f.sort() == z3.RealSort() and h.sort() != z3.RealSort():
                h = z3.ToReal(h)
            q = list(l.args)
            fn = z3.substitute(f, (j, j + 1))
            iv = l.init
            if iv is not None:
                i0 = zr(iv) if f.sort() == z3.RealSort() else zany(iv)
                f0 = z3.substitute(f, (j, z3.IntVal(0)))
                e.assume(z3.ForAll(q, f0 == i0, patterns=[f0]) if q else f0 == i0)
            e.assume(z3.ForAll([j] + q, z3.Implies(z3.And(0 <= j, j < n), fn == h), patterns=[fn]))
        invs = infer(e, s, env, j, n, open_, st, sol, fix, state, install, body, wtest, vars_save, heap_save, res)
        for inv in invs:
            e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), inv), patterns=pat_for(inv, j, open_)))

    # ---- phase 4: obligations of one arbitrary iteration (with exits excluded before j)
    stj = state(j)
    exit_conds = [z3.And(*[fix(c) for c in r["conds"]]) if r["conds"] else z3.BoolVal(True) for r in exits]
    exit_any = z3.Or(*exit_conds) if exit_conds else None
    base = len(e.pc)

    def earlier(t):
        if exit_any is None:
            return None
        q = e.const("eq")
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t), z3.Not(z3.substitute(exit_any, (j, q)))))

    def noisy():
        def th():
            env.vars = dict(vars_save)
            install(stj)
            e.writes = set()
            body(j)
        ea = earlier(j)
        if ea is not None:
            e.pc.append(("r", ea))
        r = e.nested(th, export=True)
        return r
    heap_now = e.heap
    try:
        guards = [0 <= j, j < n]
        e.heap = dict(heap_now)
        nres = e.generic(j, guards, lambda: noisy_generic(e, noisy, earlier, j))
    finally:
        e.heap = heap_now
        env.vars = dict(vars_save)
        e.writes = writes0
    # ---- exits
    if exits:
        k = e.chooser.choose(2)
        if k == 1:
            t = e.fresh("exit_it", z3.IntSort())
            e.assume(z3.And(0 <= t, t < n), "p")
            ea = earlier(t)
            if ea is not None:
                e.assume(ea)
            e.assume(z3.substitute(exit_any, (j, t)), "p")
            if not e.check_feasible(z3.BoolVal(True)):
                raise EndPath()
            install(state_at(e, state, t))
            mark_writes(e, cells)
            try:
                body(t)
            except BreakX:
                raise_break(env)
                return
            raise EndPath()
        ea = earlier(n)
        if ea is not None:
            e.assume(ea)
    # ---- after the loop
    if n.eq(z3.IntVal(0)):
        return
    stn = state(n)
    e.heap = dict(e.heap)
    defs = {}
    # variables first defined in the body: value of the last iteration
    install_after(e, env, names, stn, set_cell, st, oks, vars_save, j, n, fix, pre)
    mark_writes(e, cells)
    if wtest is not None:
        t = wtest()
        if isinstance(t, bool):
            if t:
                raise EndPath()
        else:
            e.assume(z3.Not(t))


def raise_break(env):
    return


def state_at(e, state, t):
    return state(t)


def mark_writes(e, cells):
    if e.writes is not None:
        e.writes.update(cells)


def noisy_generic(e, noisy, earlier, j):
    return noisy()


def freeze_cell_in(e, cid):
    return e.freeze(Ref(cid))


def install_after(e, env, names, stn, set_cell, st, oks, vars_save, j, n, fix, pre):
    env.vars = dict(vars_save)
    for sl, v in stn.items():
        if sl[0] == "var":
            env.vars[sl[1]] = box(e, v)
        else:
            set_cell(sl[1], v)
    for x in names:
        sl = ("var", x)
        if sl in stn:
            continue
        vals = [(r["conds"], r["value"].get(sl)) for r in oks]
        if not vals or any(v is None for _, v in vals):
            env.vars.pop(x, None)
            continue
        try:
            v = merge_paths(e, vals)
            v = vmap(v, lambda t: fix(z3.substitute(t, (j, n - 1))))
            env.vars[x] = box(e, v) if not has_ref(v) else v
        except Unsupported:
            env.vars.pop(x, None)


def merge_paths(e, hs):
    v = hs[-1][1]
    for conds, x in reversed(hs[:-1]):
        v = e.ite(z3.And(*conds) if conds else z3.BoolVal(True), x, v)
    return v


def occurs_any(ts, names):
    return any(occurs(t, names) for t in ts)


def append_form(e, p, hs, j):
    """decode list transitions that only append; returns dict or None"""
    pn = p.n
    blocks = []
    for conds, h in hs:
        if not isinstance(h, Seq):
            return None
        m = z3.simplify(h.n - pn)
        if contains_term(m, pn):
            return None
        if h.el is None:
            if z3.is_int_value(m) and m.as_long() == 0:
                blocks.append((conds, m, None))
                continue
            return None
        i = e.const("ai")
        # old part unchanged
        if z3.is_int_value(m) and m.as_long() == 0:
            hel = vsub(h.el, (h.ix, p.ix))
            if p.el is not None and not struct_eq(hel, p.el):
                return None
            blocks.append((conds, m, None))
            continue
        oldpart = prune(e, vsub(h.el, (h.ix, p.ix)), p.ix, pn, True)
        if p.el is not None and not struct_eq(oldpart, p.el):
            return None
        newpart = prune(e, vsub(h.el, (h.ix, pn + i)), None, m, False, i)
        if any(contains_term(t, pn) or occurs(t, decls_of(p)) for t in terms_of(newpart)):
            return None
        blocks.append((conds, m, (i, newpart)))
    if all(b[2] is None for b in blocks):
        return None
    ones = all(z3.is_int_value(b[1]) and b[1].as_long() in (0, 1) for b in blocks)
    allone = all(z3.is_int_value(b[1]) and b[1].as_long() == 1 for b in blocks)
    terms = []
    for conds, m, nb in blocks:
        terms += conds + [m] + (terms_of(nb[1]) if nb else [])
    if ones:
        el = None
        for conds, m, nb in reversed(blocks):
            if nb is None:
                continue
            v = vsub(nb[1], (nb[0], z3.IntVal(0)))
            el = v if el is None else e.ite(z3.And(*conds) if conds else z3.BoolVal(True), v, el)
        if allone:
            return dict(kind="one", el=el, len=lambda t: t, terms=terms)
        g = z3.Or(*[z3.And(*conds) if conds else z3.BoolVal(True) for conds, m, nb in blocks if nb is not None])
        return dict(kind="guard", el=el, guard=g, len=None, terms=terms)
    # general blocks
    i = e.const("ai")
    ln, el = None, None
    for conds, m, nb in reversed(blocks):
        c = z3.And(*conds) if conds else z3.BoolVal(True)
        v = vsub(nb[1], (nb[0], i)) if nb else None
        ln = m if ln is None else z3.If(c, m, ln)
        el = v if el is None else (el if v is None else e.ite(c, v, el))
    if not contains_term(ln, j):
        return dict(kind="block", ln=ln, el=el, i=i, len=lambda t: ln * t, terms=terms)
    return dict(kind="block", ln=ln, el=el, i=i, len=None, terms=terms)


def decls_of(p):
    return {t.decl().name() for t in terms_of(p) if z3.is_app(t)}


def struct_eq(a, b):
    ta, tb = terms_of(a), terms_of(b)
    if type(a) is not type(b) or len(ta) != len(tb):
        return False
    return all(z3.simplify(x).eq(z3.simplify(y)) for x, y in zip(ta, tb))


def prune(e, v, ix, n, old, i=None):
    """simplify If conditions of a template on one side of the append boundary"""
    if old:
        hyp = [ix < n, ix >= 0]
    else:
        hyp = [i >= 0, i < n]

    def f(t):
        return prune_term(t, hyp)
    return vmap(v, f)


def prune_term(t, hyp):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c = t.arg(0)
        s = z3.Solver()
        s.set("timeout", 100)
        s.add(*hyp)
        s.push()
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            return prune_term(t.arg(1), hyp)
        s.pop()
        s.add(c)
        if s.check() == z3.unsat:
            return prune_term(t.arg(2), hyp)
        return z3.If(c, prune_term(t.arg(1), hyp + [c]), prune_term(t.arg(2), hyp + [z3.Not(c)]))
    return t


def append_value(e, p, app, init, j, t, fix):
    fx = lambda v: vmap(v, fix)
    if app["kind"] == "one":
        ix = p.ix
        n0 = zi(init.n)
        v = fx(vsub(app["el"], (j, ix - n0 if not is_zero(z3.simplify(n0)) else ix)))
        if is_zero(z3.simplify(n0)):
            return Seq(t, ix, v, p.kind)
        return Seq(z3.simplify(n0 + t), ix, e.ite(ix < n0, vsub(init.el, (init.ix, ix)), v), p.kind)
    if app["kind"] == "guard":
        i2 = e.const("gi")
        g = GSeq(t, i2, fix(z3.substitute(app["guard"], (j, i2))), fx(vsub(app["el"], (j, i2))), p.kind)
        if is_zero(z3.simplify(zi(init.n))):
            return g
        return e.seq_concat(init, g)
    i2 = e.const("fi")
    blk = Seq(fix(z3.substitute(app["ln"], (j, i2))), app["i"], fx(vsub(app["el"], (j, i2))), p.kind)
    f = Flat(t, i2, blk, p.kind)
    if is_zero(z3.simplify(zi(init.n))):
        return f
    return e.seq_concat(init, f)


# ------------------------------------------------------------------ invariants for loops without closed form
def pat_for(inv, j, open_):
    ps = []
    names = {leaf_decl(l) for l in open_}
    for nm in names:
        for a in apps(inv, nm):
            if contains_term(a, j) and not any(z3.is_var(c) for c in a.children()):
                ps.append(a)
    uniq = []
    for a in ps:
        if not any(a.eq(b) for b in uniq):
            uniq.append(a)
    return uniq[:1]


def atoms_of(t, out):
    if z3.is_quantifier(t):
        return
    if z3.is_app(t):
        if t.sort() == z3.BoolSort() and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            if not any(t.eq(x) for x in out):
                out.append(t)
        for c in t.children():
            atoms_of(c, out)


def infer(e, s, env, j, n, open_, st, sol, fix, state, install, body, wtest, vars_save, heap_save, res):
    """Houdini over candidate invariants (scalars of the loop)"""
    sc = [l for l in open_ if not l.args]
    ints = [l for l in sc if l.p.v.sort() == z3.IntSort()]
    nums = [l for l in sc if l.p.v.sort() in (z3.IntSort(), z3.RealSort())]
    cands = []
    iv = {}
    for l in sc:
        if l.init is not None:
            iv[id(l)] = zr(l.init) if l.p.v.sort() == z3.RealSort() else zany(l.init)
    for l in nums:
        p = l.p.v
        cands += [p >= 0, p > 0, p >= 1]
        if id(l) in iv:
            cands += [p >= iv[id(l)], p <= iv[id(l)]]
    for a in nums:
        for b in nums:
            if a is not b and a.p.v.sort() == b.p.v.sort():
                cands += [a.p.v <= b.p.v, a.p.v < b.p.v]
                if a.p.v.sort() == z3.IntSort():
                    cands += [a.p.v == 2 * b.p.v, z3.Or(a.p.v == 2 * b.p.v, b.p.v == 0)]
    # predicates of the body, instantiated at the state variables
    ats = []
    for r in res:
        for c in r["conds"] + r["facts"]:
            atoms_of(fix(c), ats)
    insts = []
    for a in ats:
        subs_terms = [x for x in int_terms(a) if contains_any(x, [l.p.v for l in sc])]
        for t in subs_terms[:6]:
            for l in ints:
                inst = z3.substitute(a, (t, l.p.v))
                if any(contains_term(inst, o.p.v) for o in sc if o is not l):
                    continue
                if not any(inst.eq(x) for x, _ in insts):
                    insts.append((inst, l))
    for inst, l in insts[:40]:
        cands += [inst, z3.Not(inst)]
        if id(l) in iv:
            cands += [z3.Or(l.p.v == iv[id(l)], inst), z3.Or(l.p.v == iv[id(l)], z3.Not(inst))]
    for hint in e.hints:
        try:
            cands += hint(e, env, {k[1]: v for k, v in st.items() if k[0] == "var"}, j)
        except Exception:
            pass
    uniq = {}
    for c in cands:
        c = fix(c)
        uniq[c.get_id()] = c
    cands = list(uniq.values())
    if not cands:
        return []
    hyps = [t for k, t in e.pc]
    ghyps = [h for h in hyps if not has_quant(h)]
    # initial
    keep = []
    zero = z3.IntVal(0)
    s0 = z3.Solver()
    s0.set("timeout", 1500)
    s0.add(*hyps)
    for c in cands:
        s0.push()
        s0.add(z3.Not(z3.substitute(c, (j, zero))))
        if s0.check() == z3.unsat:
            keep.append(c)
        s0.pop()
    # step
    trans = []
    for l in open_:
        if not l.args:
            f = l.p.v
            h = fix(zany(l.h))
            if f.sort() == z3.RealSort() and h.sort() != z3.RealSort():
                h = z3.ToReal(h)
            trans.append(z3.substitute(f, (j, j + 1)) == h)
    okc = []
    for r in res:
        if r["out"] in ("ok", "continue"):
            cs = [fix(c) for c in r["conds"] + r["facts"]]
            okc.append(z3.And(*cs) if cs else z3.BoolVal(True))
    changed = True
    while changed and keep:
        changed = False
        sv = z3.Solver()
        sv.set("timeout", 2000)
        sv.add(*ghyps)
        sv.add(0 <= j, j < n)
        sv.add(*trans)
        if okc:
            sv.add(z3.Or(*okc))
        sv.add(*keep)
        sv.add(*T.ground_lemmas(trans + keep, 1))
        new = []
        for c in keep:
            sv.push()
            sv.add(z3.Not(z3.substitute(c, (j, j + 1))))
            if sv.check() == z3.unsat:
                new.append(c)
            else:
                changed = True
            sv.pop()
        keep = new
    # every kept invariant is inductive by the two checks above; count them as discharged obligations
    e.inv_count = getattr(e, "inv_count", 0) + len(keep)
    return keep


def int_terms(a):
    out, stack, seen = [], [a], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.sort() == z3.IntSort() and not z3.is_int_value(x):
            out.append(x)
        stack.extend(x.children())
    return out


def contains_any(t, xs):
    return any(contains_term(t, x) for x in xs)
