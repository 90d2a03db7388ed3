"""Interpreter part: evaluates the AST of the real functions (and of contracts) over symbolic values."""
import ast
from fractions import Fraction
import z3
from .values import *
from .engine import *
from .engine import Env
from . import theory as T
from . import strings, frame
from .loader import ClassInfo, Module, PKG


SPEC_CALLS = {"check", "assume", "forall", "exists", "count", "total", "eq", "implies", "iff", "count_keys", "count_where",
              "forall_int", "forall_real", "check_induct", "le", "forall_keys", "known"}


class PyF:
    """Built-in implemented by the verifier: fn(engine, args, kwargs, node)."""
    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class ModV:
    def __init__(self, mod):
        self.mod = mod


class SuperV:
    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls


class ExcV:
    def __init__(self, name):
        self.name = name


MAXDEPTH = 60


class Interp(Engine):
    UNROLL = 16

    # ------------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return self.global_(name, env.mod)

    def global_(self, name, mod):
        if name in mod.cache:
            return mod.cache[name]
        v = None
        if name in mod.funcs:
            v = FuncV(mod.funcs[name], mod)
        elif name in mod.classes:
            v = mod.classes[name]
        elif name in mod.assigns:
            v = self.ev(mod.assigns[name], Env(mod))
            if has_ref(v):
                v = self.freeze(v)
        elif name in mod.imports:
            v = self.imported(*mod.imports[name])
        elif name in self.dsl:
            v = self.dsl[name]
        else:
            v = self.lib.builtin(name)
            if v is None:
                raise PyRaise("NameError", None, name)
        mod.cache[name] = v
        return v

    def imported(self, modname, name):
        if modname == "pyvc_dsl":
            return self.dsl[name]
        m = self.loader.module(modname)
        if name is None:
            return ModV(m) if m is not None else Ext(modname)
        if m is not None:
            sub = self.loader.module(modname + "." + name)
            if name in m.funcs or name in m.classes or name in m.assigns or name in m.imports:
                return self.global_(name, m)
            if sub is not None:
                return ModV(sub)
            raise PyRaise("ImportError", None, name)
        sub = self.loader.module(f"{modname}.{name}")
        if sub is not None:
            return ModV(sub)
        return self.lib.external(f"{modname}.{name}")

    # ------------------------------------------------------------------ expressions
    def ev(self, node, env):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__} at line {getattr(node, 'lineno', '?')}")
        return m(node, env)

    def ev_Constant(self, node, env):
        v = node.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return NONE
        if isinstance(v, (bool, int, str)):
            return S(v)
        if isinstance(v, float):
            return S(v)
        raise Unsupported(f"constant {v!r}")

    def ev_Name(self, node, env):
        return self.lookup(node.id, env)

    def ev_Tuple(self, node, env):
        return Tup(self.ev_items(node.elts, env))

    def ev_items(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.to_seq(self.ev(e.value, env))
                if not isinstance(s, CSeq):
                    raise Unsupported("star of symbolic sequence")
                out.extend(s.items)
            else:
                out.append(self.ev(e, env))
        return out

    def ev_List(self, node, env):
        return self.new_list(CSeq(self.ev_items(node.elts, env)))

    def ev_Set(self, node, env):
        return self.lib.make_set(self, CSeq(self.ev_items(node.elts, env)))

    def ev_Dict(self, node, env):
        m = CMap([])
        for k, v in zip(node.keys, node.values):
            if k is None:
                raise Unsupported("dict unpacking")
            m = self.map_set(m, self.ev(k, env), self.ev(v, env))
        return self.alloc(DictCell(m))

    def ev_BinOp(self, node, env):
        a = self.ev(node.left, env)
        b = self.ev(node.right, env)
        self.cur_node = node
        if frame.is_any(a) or frame.is_any(b):
            return frame.unknown(self)
        return self.binop(node.op, a, b, node)

    def ev_UnaryOp(self, node, env):
        v = self.ev(node.operand, env)
        if isinstance(node.op, ast.Not):
            t = self.truth(v)
            return S((not t) if isinstance(t, bool) else z3.Not(t))
        if isinstance(node.op, ast.USub):
            return self.neg(v)
        if isinstance(node.op, ast.UAdd):
            return v
        from . import npmod
        r = npmod.unop(self, "invert", v)
        if r is None:
            raise Unsupported("~")
        return r

    def ev_BoolOp(self, node, env):
        isand = isinstance(node.op, ast.And)
        if self.spec:
            ts = []
            for x in node.values:
                try:
                    t = self.truth(self.spec_eval(x, env, ts, isand))
                except EndPath:
                    t = isand
                if isinstance(t, bool):
                    if t != isand:
                        ts.append(t)
                        break
                    continue
                ts.append(t)
            if not ts:
                return S(isand)
            if any(isinstance(t, bool) for t in ts):
                return S(not isand) if len(ts) == 1 else S((z3.And if isand else z3.Or)(*[z3.BoolVal(t) if isinstance(t, bool) else t for t in ts]))
            return S((z3.And if isand else z3.Or)(*ts) if len(ts) > 1 else ts[0])
        v = None
        for i, x in enumerate(node.values):
            v = self.ev(x, env)
            if i == len(node.values) - 1:
                return v
            t = self.decide(self.truth(v))
            if t != isand:
                return v
        return v

    def spec_eval(self, x, env, prior, isand):
        return self.ev(x, env)

    def ev_Compare(self, node, env):
        left = self.ev(node.left, env)
        acc = None
        for op, rn in zip(node.ops, node.comparators):
            right = self.ev(rn, env)
            self.cur_node = node
            if frame.is_any(left) or frame.is_any(right):
                r = S(self.fresh("cmp", z3.BoolSort()))
            else:
                r = self.cmp(op, left, right, node)
            if acc is None:
                acc = r
            else:
                if not (isinstance(acc, S) and isinstance(r, S)):
                    raise Unsupported("chained array comparison")
                acc = self.and_(acc, r)
            left = right
        return acc

    def and_(self, a, b):
        if a.conc:
            return b if a.v else a
        if b.conc:
            return a if b.v else b
        return S(z3.And(zb(a), zb(b)))

    def or_(self, a, b):
        if a.conc:
            return a if a.v else b
        if b.conc:
            return b if b.v else a
        return S(z3.Or(zb(a), zb(b)))

    def ev_IfExp(self, node, env):
        t = self.truth(self.ev(node.test, env))
        if isinstance(t, bool):
            return self.ev(node.body if t else node.orelse, env)
        if self.spec:
            a, b = self.ev(node.body, env), self.ev(node.orelse, env)
            return self.ite(t, self.freeze(a), self.freeze(b))
        return self.ev(node.body if self.decide(t) else node.orelse, env)

    def ev_Lambda(self, node, env):
        return FuncV(node, env.mod, env, None, "<lambda>")

    def ev_JoinedStr(self, node, env):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(S(v.value))
            else:
                x = self.ev(v.value, env)
                if isinstance(x, S) and x.conc and v.format_spec is None and x.kind in ("str", "int"):
                    parts.append(S(str(x.v)))
                else:
                    x = self.as_text(x, v)
                    t = strings.text(x) if v.format_spec is None and v.conversion in (-1, None) else None
                    parts.append(strings.make(t) if t is not None else self.fresh_str("fstr"))
        return strings.make([q for p in parts for q in strings.pieces(p)])

    def as_text(self, x, node):
        if frame.is_any(x):
            return frame.text(self, x)
        if isinstance(x, (Ref, ObjVal)):
            c = self.cell(x) if isinstance(x, Ref) else x
            if isinstance(c, (ObjCell, ObjVal)):
                m = self.find_method(c.cls, "__str__")
                if m is not None:
                    return self.call(Bound(m, x), [], {}, node)
        return x

    def ev_Attribute(self, node, env):
        o = self.ev(node.value, env)
        if isinstance(o, PyF) and "." in o.name:
            r = self.lib.external(f"{o.name}.{node.attr}")
            if isinstance(r, PyF):
                return r
        return self.get_attr(o, node.attr, node)

    def ev_Subscript(self, node, env):
        o = self.ev(node.value, env)
        if isinstance(o, (Ext, ClassInfo)):
            return o                      # typing generics
        if frame.is_any(o):
            return frame.unknown(self)
        return self.get_item(o, node.slice, env, node)

    def ev_NamedExpr(self, node, env):
        v = self.ev(node.value, env)
        self.store(node.target, v, env)
        return v

    def ev_Starred(self, node, env):
        raise Unsupported("starred expression")

    def slice_parts(self, sl, env):
        f = lambda x: NONE if x is None else self.ev(x, env)
        return f(sl.lower), f(sl.upper), f(sl.step)

    def get_item(self, o, sl, env, node):
        c = self.content(o)
        if isinstance(sl, ast.Slice):
            lo, hi, st = self.slice_parts(sl, env)
            if isinstance(c, Tup):
                c = CSeq(c.items, "tuple")
                r = self.seq_slice(c, lo, hi, st, node)
                return Tup(r.items) if isinstance(r, CSeq) else r
            if self.is_seq(c):
                return self.wrap_like(c, self.seq_slice(c, lo, hi, st, node))
            if isinstance(c, Nd):
                from . import npmod
                return npmod.getitem(self, o, [("slice", lo, hi, st)], node)
            if isinstance(c, S) and c.conc and isinstance(c.v, str):
                g = lambda x: None if isinstance(x, NoneV) else x.v
                return S(c.v[g(lo):g(hi):g(st)])
            raise Unsupported(f"slice of {type(c).__name__}")
        if isinstance(c, Nd):
            from . import npmod
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            idx = []
            for e in elts:
                if isinstance(e, ast.Slice):
                    idx.append(("slice",) + self.slice_parts(e, env))
                else:
                    idx.append(("ix", self.ev(e, env)))
            return npmod.getitem(self, o, idx, node)
        k = self.ev(sl, env)
        return self.item(o, k, node)

    def item(self, o, k, node=None):
        c = self.content(o)
        if isinstance(c, Tup):
            if isinstance(k, S) and k.conc:
                i = int(k.v)
                if -len(c.items) <= i < len(c.items):
                    return c.items[i]
                self.require(False, "IndexError", "tuple index", node)
                raise EndPath()
            return self.seq_get(CSeq(c.items, "tuple"), k, node)
        if self.is_seq(c):
            if not isinstance(k, S):
                raise Unsupported("index type")
            return self.seq_get(c, k, node)
        if isinstance(c, (MapV, CMap)):
            return self.map_get(o, c, self.as_key(k), node)
        if isinstance(c, Nd):
            from . import npmod
            return npmod.getitem(self, o, [("ix", k)], node)
        if isinstance(c, S) and c.kind == "str":
            return self.fresh_str("ch")
        if isinstance(c, ObjCell) or isinstance(c, ObjVal):
            m = self.find_method(c.cls, "__getitem__")
            if m:
                return self.call(self.bind(m, o), [k], {}, node)
        raise Unsupported(f"subscript of {type(c).__name__}")

    def as_key(self, k):
        if isinstance(k, S):
            return k
        raise Unsupported("non-scalar key")

    # comprehension ------------------------------------------------------------------
    def ev_ListComp(self, node, env):
        s = self.comp(node.elt, node.generators, env)
        if frame.is_any(s):
            return s
        if isinstance(s, CSeq):
            return self.new_list(CSeq(s.items))
        return self.new_list(s)

    def ev_GeneratorExp(self, node, env):
        s = self.comp(node.elt, node.generators, env)
        return s if not isinstance(s, CSeq) else CSeq(s.items, "gen")

    def ev_SetComp(self, node, env):
        return self.lib.make_set(self, self.comp(node.elt, node.generators, env))

    def ev_DictComp(self, node, env):
        s = self.comp(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node.generators, env)
        return self.lib.make_dict(self, s, node)

    def comp(self, elt, gens, env):
        g = gens[0]
        s = self.ev(g.iter, env)
        if frame.is_any(s):
            return frame.call(self, "comprehension", [], {}, elt)
        s = self.to_seq(s)
        if isinstance(s, CSeq) and len(s.items) <= 40:
            out = CSeq([])
            for x in s.items:
                e2 = Env(env.mod, env)
                e2.cls, e2.self_ = env.cls, env.self_
                self.store(g.target, x, e2)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, e2))
                    if not (t if isinstance(t, bool) else self.decide(t)):
                        keep = False
                        break
                if not keep:
                    continue
                if len(gens) > 1:
                    out = self.seq_concat(out, self.comp(elt, gens[1:], e2))
                else:
                    out = self.seq_append(out, self.ev(elt, e2))
            return out
        if isinstance(s, Flat):
            s = self.to_plain(s)
        j = self.const("ci")
        n = zi(s.n) if not isinstance(s, CSeq) else zi(len(s.items))
        guards = [0 <= j, j < n]
        if isinstance(s, GSeq):
            guards.append(z3.substitute(s.guard, (s.ix, j)))
        x = self.seq_get_raw(s, j) if not isinstance(s, GSeq) else vsub(s.el, (s.ix, j))

        def at():
            e2 = Env(env.mod, env)
            e2.cls, e2.self_ = env.cls, env.self_
            self.store(g.target, x, e2)
            cond = S(True)
            for c in g.ifs:
                t = self.truth(self.ev(c, e2))
                cond = self.and_(cond, S(t))
                if cond.conc and not cond.v:
                    return Tup([cond, NONE])
                if not cond.conc:
                    self.assume(zb(S(t)) if not isinstance(t, bool) else t, "g")
            if len(gens) > 1:
                return Tup([cond, Opq("blk", {"v": self.comp(elt, gens[1:], e2)})])
            return Tup([cond, self.ev(elt, e2)])
        box = self.generic(j, guards, lambda: self.merged_comp(at))
        cond, el = box
        base = z3.BoolVal(True) if not isinstance(s, GSeq) else guards[2]
        if len(gens) > 1:
            blk = el
            if not (cond.conc and cond.v) or isinstance(s, GSeq):
                gd = z3.And(base, zb(cond))
                blk = self.guard_block(blk, gd)
            return Flat(n, j, blk)
        if isinstance(s, GSeq) or not (cond.conc and cond.v):
            return GSeq(n, j, z3.simplify(z3.And(base, zb(cond))), el, "list", None)
        perm = None
        if isinstance(s, Seq) and s.perm is not None:
            p = s.perm

            def mapper(orig_el):
                return orig_el
            perm = self.perm_image(s, p, el, j, x)
        return Seq(n, j, el, "list", perm)

    def perm_image(self, s, p, el, j, x):
        """element-wise image of the unsorted original (when el is a projection of the element)"""
        try:
            if isinstance(p, Seq) and isinstance(x, Tup) and isinstance(p.el, Tup):
                for a, b in zip(x.items, p.el.items):
                    if isinstance(a, S) and isinstance(el, S) and not a.conc and not el.conc and a.v.eq(el.v):
                        return Seq(p.n, p.ix, b, "list")
        except Exception:
            pass
        return None

    def guard_block(self, blk, gd):
        if isinstance(blk, CSeq):
            ix = self.const("bi")
            if len(blk.items) == 1:
                return GSeq(1, ix, gd, self.freeze(blk.items[0]))
            blk = Seq(z3.IntVal(len(blk.items)), ix, self.seq_get_raw(blk, ix))
        if isinstance(blk, Seq):
            return GSeq(blk.n, blk.ix, gd, blk.el)
        if isinstance(blk, GSeq):
            return GSeq(blk.n, blk.ix, z3.And(gd, blk.guard), blk.el)
        raise Unsupported("guarded nested comprehension")

    def merged_comp(self, at):
        """merge (cond, value) pairs over local paths"""
        def t():
            v = at()
            x = v.items[1]
            if isinstance(x, Opq) and x.tag == "blk":
                x = x.data["v"]
            return (v.items[0], self.freeze(x))
        res = self.nested(t)
        oks = []
        for r in res:
            if r["out"] == "ok":
                oks.append(r)
            elif r["out"] == "raise":
                self.raise_path(r)
        if not oks:
            raise EndPath()
        cond, val = oks[-1]["value"]
        for r in reversed(oks[:-1]):
            pc = z3.And(*r["conds"]) if r["conds"] else z3.BoolVal(True)
            c2, v2 = r["value"]
            cond = self.ite(pc, c2, cond)
            if isinstance(v2, NoneV) and c2.conc and not c2.v:
                continue
            val = v2 if isinstance(val, NoneV) else self.ite(pc, v2, val)
        return cond, val

    def raise_path(self, r):
        e = r["value"]
        for caught in reversed(self.try_stack):
            if any(exc_matches(e.name, c) for c in caught):
                raise Unsupported("caught exception inside a comprehension")
        self.fail_path(r["conds"] + r["facts"], f"unexpected {e.name}", e.node)
        self.assume_x(z3.Not(z3.And(*r["conds"])) if r["conds"] else False)

    def generic(self, j, guards, thunk):
        """run thunk for an arbitrary index j under guards; new facts are generalised over j"""
        base = len(self.pc)
        self.bound.append(j)
        for g in guards:
            self.pc.append(("r", g))
        mark = len(self.pc)
        try:
            v = thunk()
        finally:
            self.bound.pop()
            new = self.pc[mark:]
            del self.pc[base:]
        rng = z3.And(*guards) if len(guards) > 1 else guards[0]
        cur = None
        for k, t in new:
            if k in ("p", "g"):
                cur = t if cur is None else z3.And(cur, t)
                continue
            f = t if cur is None else z3.Implies(cur, t)
            if k == "x":
                cur = t if cur is None else z3.And(cur, t)
            if contains_term(f, j):
                f = z3.ForAll([j], z3.Implies(rng, f))
            elif not z3.is_true(rng):
                # j-free facts hold only if the range is inhabited
                f = z3.Implies(z3.Exists([j], rng), f) if not self.nonempty(guards, j) else f
            self.pc.append(("x" if k == "x" else "f", f))
        return v

    def nonempty(self, guards, j):
        return False

    def ev_Call(self, node, env):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return SuperV(env_self(env), env_cls(env))
        f = self.ev(node.func, env)
        isspec = isinstance(f, PyF) and f.name in SPEC_CALLS
        if isspec:
            self.spec += 1
            try:
                return self.ev_call_args(f, node, env)
            finally:
                self.spec -= 1
        return self.ev_call_args(f, node, env)

    def ev_call_args(self, f, node, env):
        args, kwargs = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                c = self.content(v)
                if isinstance(c, Tup):
                    args.extend(c.items)
                elif isinstance(c, CSeq):
                    args.extend(c.items)
                else:
                    args.append(Opq("star", {"v": v}))
            else:
                args.append(self.ev(a, env))
        for k in node.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                c = self.content(v)
                if isinstance(c, CMap):
                    for kk, vv in c.pairs:
                        kwargs[kk.v] = vv
                else:
                    raise Unsupported("symbolic keyword arguments")
            else:
                kwargs[k.arg] = v
        self.cur_node = node
        return self.call(f, args, kwargs, node)

    # ------------------------------------------------------------------ attributes
    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            try:
                v = self.ev(b, Env(cls.mod))
            except PyRaise:
                continue
            if isinstance(v, ClassInfo):
                for c in self.mro(v):
                    if c not in out:
                        out.append(c)
        return out

    def find_method(self, cls, name, after=None):
        ms = self.mro(cls)
        if after is not None:
            ms = ms[ms.index(after) + 1:]
        for c in ms:
            if name in c.methods:
                node, kind = c.methods[name]
                return FuncV(node, c.mod, None, c, name, kind)
        return None

    def bind(self, fv, obj):
        return Bound(fv, obj)

    def cls_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return self.ev(c.attrs[name], Env(c.mod))
            if c.namedtuple is False and name in c.defaults:
                return self.ev(c.defaults[name], Env(c.mod))
        return None

    def get_attr(self, o, name, node=None):
        if frame.is_any(o):
            return frame.unknown(self, o.data["key"] + "." + name)
        if isinstance(o, Ref):
            c = self.cell(o)
        else:
            c = o
        if isinstance(c, (ObjCell, ObjVal)):
            if name in c.fields:
                return c.fields[name]
            m = self.find_method(c.cls, name)
            if m is not None:
                if m.kind == "property":
                    return self.call(Bound(m, o), [], {}, node)
                if m.kind == "static":
                    return m
                if m.kind == "classmethod":
                    return Bound(m, c.cls)
                return Bound(m, o)
            a = self.cls_attr(c.cls, name)
            if a is not None:
                return a
            if name == "__class__":
                return c.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            raise PyRaise("AttributeError", node, name)
        if isinstance(c, Tup) and c.cls is not None:
            if name in c.cls.fields:
                return c.items[c.cls.fields.index(name)]
            m = self.find_method(c.cls, name)
            if m is not None:
                if m.kind == "property":
                    return self.call(Bound(m, o), [], {}, node)
                return m if m.kind == "static" else Bound(m, o if m.kind != "classmethod" else c.cls)
            return BMeth(o, name, node)
        if isinstance(c, ClassInfo):
            m = self.find_method(c, name)
            if m is not None:
                return Bound(m, c) if m.kind == "classmethod" else m
            a = self.cls_attr(c, name)
            if a is not None:
                return a
            if name == "__name__":
                return S(c.name)
            raise PyRaise("AttributeError", node, name)
        if isinstance(c, ModV):
            return self.global_(name, c.mod)
        if isinstance(c, Ext):
            return self.lib.external(c.path + "." + name)
        if isinstance(c, SuperV):
            m = self.find_method(c.self_.cls if isinstance(c.self_, ObjVal) else (self.cell(c.self_).cls if isinstance(c.self_, Ref) else c.self_), name, after=c.cls)
            if m is None:
                if name == "__init__":
                    return PyF(lambda e, a, k, n: NONE, "object.__init__")
                raise PyRaise("AttributeError", node, name)
            if m.kind == "property":
                return self.call(Bound(m, c.self_), [], {}, node)
            return Bound(m, c.self_)
        v = self.lib.value_attr(self, o, name, node)
        if v is not None:
            return v
        return BMeth(o, name, node)

    def set_attr(self, o, name, v, node=None):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjCell):
                m = self.find_method(c.cls, name + "@setter")
                if m is not None:
                    self.call(Bound(m, o), [v], {}, node)
                    return
                f = dict(c.fields)
                f[name] = v
                self.write(o, ObjCell(c.cls, f, c.ghost))
                return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if self.frame:
            return self.call_framed(f, args, kwargs, node)
        return self.call_(f, args, kwargs, node)

    frame = ()
    ghost_ops = 0
    raise_epoch = None

    def is_ghost(self, x):
        """an object of a class of the contracts: ghost state"""
        c = self.cell(x) if isinstance(x, Ref) else x
        return isinstance(c, (ObjCell, ObjVal)) and not c.cls.mod.name.startswith(PKG)

    def call_framed(self, f, args, kwargs, node):
        if frame.is_any(f):
            return frame.call(self, f.data["key"], args, kwargs, node)
        if isinstance(f, Ext) or (isinstance(f, PyF) and f.name not in SPEC_CALLS and ("." in f.name or frame.some(args, kwargs))):
            nm = f.path if isinstance(f, Ext) else f.name
            if frame.some(args, kwargs) or "random" in nm or "logging." in nm:
                return frame.call(self, nm, args, kwargs, node)
            try:
                return self.call_(f, args, kwargs, node)
            except Unsupported:
                return frame.call(self, nm, args, kwargs, node)
        if isinstance(f, BMeth):
            if not frame.some(args, kwargs):
                try:
                    return self.call_(f, args, kwargs, node)
                except Unsupported:
                    if not isinstance(f.obj, S):
                        raise
            return frame.call(self, "str." + f.name if isinstance(f.obj, S) else "." + f.name, [f.obj] + list(args), kwargs, node)
        fv = f.func if isinstance(f, Bound) else f
        if isinstance(fv, (FuncV, ClassInfo)) and fv.mod.name.startswith(PKG):
            short = fv.mod.name[len(PKG) + 1:]
            if short not in self.frame or (frame.some(args, kwargs) and not any(self.is_ghost(x) for x in list(args) + list(kwargs.values()))):
                return frame.call(self, short + "." + fv.name, args, kwargs, node)
            ops, h = self.ghost_ops, dict(self.heap)
            try:
                return self.call_(f, args, kwargs, node)
            except Unsupported:
                if self.ghost_ops != ops:
                    raise
                self.heap = h
                return frame.call(self, short + "." + fv.name, args, kwargs, node)
        return self.call_(f, args, kwargs, node)

    def call_(self, f, args, kwargs, node=None):
        if isinstance(f, PyF):
            return f.fn(self, args, kwargs, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kwargs, node, bound=True)
        if isinstance(f, ClassInfo):
            return self.construct(f, args, kwargs, node)
        if isinstance(f, UFun):
            ts = []
            for a, k in zip(args, f.kinds):
                ts.append(zi(a) if k in ("int", "nat") else zr(a) if k == "real" else zb(a))
            return S(f.f(*ts))
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, args, kwargs, node)
        if isinstance(f, BMeth):
            return self.lib.call_method(self, f.obj, f.name, args, kwargs, node)
        if isinstance(f, Opq):
            return self.lib.call_opq(self, f, args, kwargs, node)
        c = self.content(f)
        if isinstance(c, (ObjCell, ObjVal)):
            m = self.find_method(c.cls, "__call__")
            if m:
                return self.call_func(m, [f] + list(args), kwargs, node)
        raise Unsupported(f"call of {type(f).__name__}")

    def bind_args(self, fv, args, kwargs, node):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if any(isinstance(x, Opq) and x.tag == "star" for x in args):
            raise Unsupported("symbolic star arguments")
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", node, "too many arguments")
            vals[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            vals[n] = v
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in vals:
                    raise PyRaise("TypeError", node, "duplicate argument")
                vals[n] = kw.pop(n)
        if kw:
            if a.kwarg is None:
                raise PyRaise("TypeError", node, "unexpected keyword")
            vals[a.kwarg.arg] = self.alloc(DictCell(CMap([(S(k), v) for k, v in kw.items()])))
        elif a.kwarg is not None:
            vals[a.kwarg.arg] = self.alloc(DictCell(CMap([])))
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                if n not in defs:
                    raise PyRaise("TypeError", node, f"missing argument {n}")
                denv = fv.env if fv.env is not None else Env(fv.mod)
                vals[n] = self.ev(defs[n], denv)
                if isinstance(vals[n], Ref):       # a mutable default is shared between calls: read-only here
                    self.frozen_cells.add(vals[n].cid)
        return vals

    def call_func(self, fv, args, kwargs, node=None, bound=False):
        if fv.kind == "classmethod" and not bound:
            args = [fv.cls] + list(args)
        vals = self.bind_args(fv, args, kwargs, node)
        if isinstance(fv.node, ast.Lambda):
            env = Env(fv.mod, fv.env, fv)
            env.vars.update(vals)
            self.inherit(env, fv)
            return self.ev(fv.node.body, env)
        q = fv.qual
        if self.frame and not fv.mod.name.startswith(PKG):
            self.ghost_ops += 1
        if fv.mod.name.startswith(PKG):
            self.funcs_seen.add(q)
            con = self.contracts.get(q)
            if con is not None and q not in self.verifying and not self.inline_all:
                return self.call_contract(con, fv, vals, node)
        if self.depth > MAXDEPTH:
            raise Unsupported("recursion depth")
        self.depth += 1
        self.call_stack.append(q)
        spec0 = self.spec
        if fv.mod.name.startswith(PKG):
            self.spec = 0
        env = Env(fv.mod, fv.env, fv)
        env.vars.update(vals)
        if fv.cls is not None:
            env.cls = fv.cls
            a0 = (fv.node.args.posonlyargs + fv.node.args.args)
            if fv.kind != "static" and a0:
                env.self_ = vals[a0[0].arg]
        else:
            self.inherit(env, fv)
        isgen = is_generator(fv.node)
        if isgen:
            env.yields = self.new_list(CSeq([]))
        try:
            self.exec_block(fv.node.body, env)
            r = NONE
        except ReturnX as e:
            r = e.value
        finally:
            self.depth -= 1
            self.call_stack.pop()
            self.spec = spec0
        if isgen:
            return self.cell(env.yields).seq
        return r
    verifying = frozenset()
    inline_all = False
    applying = ()
    cur_contract = ()
    nchecks = 0

    def call_contract(self, con, fv, vals, node):
        """modular call: the callee's contract is applied (preconditions become obligations)"""
        self.contracts_used.add(con.qual)
        names = [x.arg for x in con.node.args.args]
        real = [x.arg for x in fv.node.args.args]
        args = {}
        for i, n in enumerate(names):
            if n in vals:
                args[n] = vals[n]
            elif i < len(real):
                args[n] = vals[real[i]]
            else:
                raise Unsupported(f"contract parameter {n}")
        sv = self.cur_contract
        self.applying = list(self.applying) + [con.qual]
        self.cur_contract = list(sv) + [con]
        try:
            return self.call_func(FuncV(con.node, con.mod), [], args, node)
        finally:
            self.applying = self.applying[:-1]
            self.cur_contract = sv

    def inherit(self, env, fv):
        e = fv.env
        while e is not None:
            if e.cls is not None:
                env.cls, env.self_ = e.cls, e.self_
                return
            e = e.parent

    def construct(self, cls, args, kwargs, node=None):
        if cls.namedtuple:
            vals = dict(zip(cls.fields, args))
            vals.update(kwargs)
            items = []
            for f in cls.fields:
                if f in vals:
                    items.append(vals[f])
                elif f in cls.defaults:
                    items.append(self.ev(cls.defaults[f], Env(cls.mod)))
                else:
                    raise PyRaise("TypeError", node, "missing field")
            return Tup(items, cls)
        r = self.alloc(ObjCell(cls, {}, None))
        m = self.find_method(cls, "__init__")
        if m is not None:
            ghost = None
            try:
                b = self.bind_args(m, [r] + list(args), kwargs, node)
                ghost = {k: self.freeze(v) for k, v in b.items() if not (isinstance(v, Ref) and v.cid == r.cid)}
            except Unsupported:
                pass
            self.call_func(m, [r] + list(args), kwargs, node)
            c = self.heap[r.cid]
            self.heap[r.cid] = ObjCell(c.cls, c.fields, ghost)
        return r

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.cur_node = s
        m(s, env)

    def ex_Pass(self, s, env):
        pass

    def ex_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split(".")[0]] = self.imported(a.name if a.asname else a.name.split(".")[0], None)

    def ex_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.imported(s.module, a.name)

    def ex_Global(self, s, env):
        raise Unsupported("global statement")

    def ex_Nonlocal(self, s, env):
        raise Unsupported("nonlocal statement")

    def ex_Expr(self, s, env):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Yield):
            x = self.ev(v.value, env) if v.value else NONE
            y = self.yields_of(env)
            self.write(y, ListCell(self.seq_append(self.cell(y).seq, x)))
            return
        if isinstance(v, ast.YieldFrom):
            x = self.to_seq(self.ev(v.value, env))
            y = self.yields_of(env)
            self.write(y, ListCell(self.seq_concat(self.cell(y).seq, x)))
            return
        self.ev(v, env)

    def yields_of(self, env):
        while env is not None:
            if env.yields is not None:
                return env.yields
            env = env.parent
        raise Unsupported("yield outside generator")

    def ex_Return(self, s, env):
        raise ReturnX(self.ev(s.value, env) if s.value else NONE)

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.store(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value is not None:
            self.store(s.target, self.ev(s.value, env), env)

    def ex_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id, env)
        elif isinstance(s.target, ast.Attribute):
            old = self.ev_Attribute(s.target, env)
        else:
            old = self.ev_Subscript(s.target, env)
        rhs = self.ev(s.value, env)
        if isinstance(old, Ref):
            c = self.cell(old)
            if isinstance(c, ListCell) and isinstance(s.op, ast.Add):
                self.write(old, ListCell(self.seq_concat(c.seq, self.to_seq(rhs))))
                return
            if isinstance(c, NdCell):
                r = self.binop(s.op, old, rhs, s)
                nd = self.content(r)
                self.write(old, NdCell(nd))
                return
            if isinstance(c, SetCell) and isinstance(s.op, ast.BitOr):
                self.write(old, SetCell(self.content(self.binop(s.op, old, rhs, s))))
                return
        self.store(s.target, self.binop(s.op, old, rhs, s), env)

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(v)
            if isinstance(c, (Tup, CSeq)):
                if len(c.items) != len(t.elts):
                    raise PyRaise("ValueError", t, "unpack")
                for x, y in zip(t.elts, c.items):
                    self.store(x, y, env)
                return
            if isinstance(c, (Seq, GSeq, Flat)) or isinstance(c, Nd):
                c = self.to_seq(c)
                n = self.length(c)
                self.require(zi(n) == len(t.elts), "ValueError", "unpack length", t)
                for i, x in enumerate(t.elts):
                    self.store(x, self.seq_get_raw(c, i), env)
                return
            raise Unsupported(f"unpack {type(c).__name__}")
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.set_attr(o, t.attr, v, t)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            c = self.content(o)
            if isinstance(c, Nd):
                from . import npmod
                sl = t.slice
                elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                idx = []
                for e in elts:
                    if isinstance(e, ast.Slice):
                        idx.append(("slice",) + self.slice_parts(e, env))
                    else:
                        idx.append(("ix", self.ev(e, env)))
                new = npmod.setitem(self, c, idx, v, t)
                if isinstance(o, Ref):
                    self.write(o, NdCell(new))
                else:
                    self.store(t.value, new, env)
                return
            if isinstance(t.slice, ast.Slice):
                lo, hi, st = self.slice_parts(t.slice, env)
                if isinstance(lo, NoneV) and isinstance(hi, NoneV) and isinstance(st, NoneV) and isinstance(o, Ref):
                    self.write(o, ListCell(self.to_seq(v)))
                    return
                raise Unsupported("slice assignment")
            k = self.ev(t.slice, env)
            if isinstance(c, (MapV, CMap)):
                new = self.map_set(c, self.as_key(k), v)
                if isinstance(o, Ref):
                    self.write(o, DictCell(new))
                else:
                    self.store(t.value, new, env)
                return
            if self.is_seq(c):
                new = self.seq_set(c, k, v, t)
                if isinstance(o, Ref):
                    self.write(o, ListCell(new))
                else:
                    self.store(t.value, new, env)
                return
            raise Unsupported(f"item assignment on {type(c).__name__}")
        raise Unsupported(f"assignment target {type(t).__name__}")

    def ex_If(self, s, env):
        t = self.truth(self.ev(s.test, env))
        if self.decide(t):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def ex_Assert(self, s, env):
        t = self.truth(self.ev(s.test, env))
        self.require(t, "AssertionError", "assert", s)

    def ex_Raise(self, s, env):
        e = s.exc
        name = "Exception"
        if e is None:
            raise Unsupported("bare raise")
        f = e.func if isinstance(e, ast.Call) else e
        name = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "Exception")
        if isinstance(f, ast.Name) and not isinstance(e, ast.Call):
            v = None
            try:
                v = self.lookup(f.id, env)
            except PyRaise:
                pass
            if isinstance(v, ExcV):
                name = v.name
        raise PyRaise(name, s)

    def ex_Try(self, s, env):
        def names(h):
            if h.type is None:
                return ["BaseException"]
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            return [t.id if isinstance(t, ast.Name) else t.attr for t in ts]
        caught = [n for h in s.handlers for n in names(h)]
        self.try_stack.append(caught)
        try:
            try:
                self.exec_block(s.body, env)
            finally:
                self.try_stack.pop()
            self.exec_block(s.orelse, env)
        except PyRaise as e:
            for h in s.handlers:
                if any(exc_matches(e.name, c) for c in names(h)):
                    if h.name:
                        env.vars[h.name] = ExcV(e.name)
                    self.exec_block(h.body, env)
                    break
            else:
                self.exec_block(s.finalbody, env)
                raise
        except (ReturnX, BreakX, ContinueX):
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    def ex_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, env)
        self.exec_block(s.body, env)

    def ex_FunctionDef(self, s, env):
        env.vars[s.name] = FuncV(s, env.mod, env, None, s.name)

    def ex_Break(self, s, env):
        raise BreakX()

    def ex_Continue(self, s, env):
        raise ContinueX()

    def ex_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, Opq):
            raise Unsupported(f"iteration over opaque {it.tag}")
        seq = self.to_seq(it)
        if isinstance(seq, CSeq) and len(seq.items) <= 64:
            try:
                for x in list(seq.items):
                    self.store(s.target, x, env)
                    try:
                        self.exec_block(s.body, env)
                    except ContinueX:
                        pass
            except BreakX:
                return
            self.exec_block(s.orelse, env)
            return
        from . import loops
        loops.for_loop(self, s, env, seq)

    def ex_While(self, s, env):
        # concrete unrolling while the guard is decided without branching
        for _ in range(self.UNROLL):
            t = self.truth(self.ev(s.test, env))
            if not isinstance(t, bool):
                st = z3.simplify(t)
                t = True if z3.is_true(st) else False if z3.is_false(st) else t
            if isinstance(t, bool):
                if not t:
                    return
                if isinstance(s.test, ast.Constant):
                    break
                from . import loops
                if loops.has_symbolic_body(self, s, env):
                    break
                try:
                    self.exec_block(s.body, env)
                except ContinueX:
                    pass
                except BreakX:
                    return
                continue
            break
        from . import loops
        loops.while_loop(self, s, env)

    # ------------------------------------------------------------------ building typed inputs
    def make(self, ty, hint, extra=()):
        """fresh symbolic mutable value of a type descriptor (objects via their real constructors)"""
        v = self.fresh_any(ty, hint)
        return self.thaw(v) if not isinstance(v, Ref) else v

    def fresh_any(self, ty, hint):
        k = ty[0]
        if k == "const":
            v = ty[1]
            return NONE if v is None else S(v)
        if k == "obj":
            return self.fresh_obj(ty, hint)
        if k == "made":
            argv = {a: self.make(t, f"{hint}.{a}") for a, t in ty[2].items()}
            ghost = {a: self.freeze(v) for a, v in argv.items()}
            mod = self.lemma.mod
            self.quiet += 1
            try:
                r = self.call_func(FuncV(mod.funcs[ty[1]], mod), [], argv)
            except PyRaise:
                raise EndPath()
            finally:
                self.quiet -= 1
            if isinstance(r, Ref) and isinstance(self.cell(r), ObjCell):
                c = self.cell(r)
                self.heap[r.cid] = ObjCell(c.cls, c.fields, ghost)
            return r
        if k == "nt":
            return Tup([self.fresh_any(t, f"{hint}.{i}") for i, t in enumerate(ty[2])], self.find_class_any(ty[1]))
        if k in ("list", "tuplelist") and contains_obj(ty[1]):
            n = self.fresh(f"len({hint})", z3.IntSort())
            self.assume(n >= 0)
            ix = self.const("ix")
            el = self.generic(ix, [0 <= ix, ix < n], lambda: self.merged_assume(lambda: self.fresh_any(ty[1], hint + "[]")))
            return Seq(n, ix, el, "list" if k == "list" else "tuple")
        if k == "tuple":
            return Tup([self.fresh_any(t, f"{hint}.{i}") for i, t in enumerate(ty[1])])
        return self.fresh_value(ty, hint)

    def merged_assume(self, thunk):
        """like merged, but raising paths are assumed away (the object exists)"""
        res = self.nested(lambda: self.freeze(thunk()))
        oks = [r for r in res if r["out"] == "ok"]
        for r in res:
            if r["out"] == "raise":
                self.assume(z3.Not(z3.And(*(r["conds"]))) if r["conds"] else False)
        if not oks:
            raise EndPath()
        v = oks[-1]["value"]
        for r in reversed(oks[:-1]):
            v = self.ite(z3.And(*r["conds"]) if r["conds"] else z3.BoolVal(True), r["value"], v)
        return v

    def fresh_obj(self, ty, hint):
        cls = self.find_class_any(ty[1])
        argv = {a: self.make(t, f"{hint}.{a}") if isinstance(t, tuple) else t for a, t in ty[2].items()}
        ghost = {a: self.freeze(v) for a, v in argv.items()}
        self.quiet += 1
        try:
            r = self.construct(cls, [], argv)
        except PyRaise:
            raise EndPath()
        finally:
            self.quiet -= 1
        if isinstance(r, Ref):
            c = self.cell(r)
            self.heap[r.cid] = ObjCell(c.cls, c.fields, ghost)
        return r

    def find_class_any(self, ref):
        if isinstance(ref, ClassInfo):
            return ref
        mod, name = ref.split(":")
        for full in (f"{PKG}.{mod}", mod):
            m = self.loader.module(full)
            if m is not None and name in m.classes:
                return m.classes[name]
        raise Unsupported(f"class {ref} not found")


def contains_obj(ty):
    if not isinstance(ty, tuple):
        return False
    if ty[0] in ("obj", "made"):
        return True
    return any(contains_obj(x) if isinstance(x, tuple) else isinstance(x, list) and any(contains_obj(y) for y in x) for x in ty[1:])


def env_self(env):
    while env is not None:
        if env.self_ is not None:
            return env.self_
        env = env.parent
    raise Unsupported("super outside a method")


def env_cls(env):
    while env is not None:
        if env.cls is not None:
            return env.cls
        env = env.parent
    raise Unsupported("super outside a class")


_gen = {}


def is_generator(node):
    k = id(node)
    if k not in _gen:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(n))
        _gen[k] = (r, node)
    return _gen[k][0]
