"""Forward symbolic execution of the real Python functions, generating verification conditions."""
import ast
from fractions import Fraction
import z3
from .values import *
from . import theory as T
from .loader import ClassInfo, Module, PKG


class EndPath(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, node=None, msg=""):
        self.name, self.node, self.msg = name, node, msg


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class CannotMerge(Unsupported):
    pass


class Env:
    def __init__(self, mod, parent=None, func=None):
        self.vars, self.mod, self.parent, self.func = {}, mod, parent, func
        self.cls = None
        self.self_ = None
        self.yields = None


class Chooser:
    def __init__(self, prefix):
        self.prefix, self.i, self.taken, self.alts = list(prefix), 0, [], []

    def choose(self, n):
        if self.i < len(self.prefix):
            c = self.prefix[self.i]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.taken + [k])
        self.i += 1
        self.taken.append(c)
        return c


class Ob:
    def __init__(self, name, hyps, goal, where, lemma):
        self.name, self.hyps, self.goal, self.where, self.lemma = name, hyps, goal, where, lemma
        self.status = None
        self.solver = None
        self.time = 0.0
        self.model = None


EXC_PARENTS = {
    "IndexError": ["LookupError", "Exception"], "KeyError": ["LookupError", "Exception"],
    "ZeroDivisionError": ["ArithmeticError", "Exception"], "OverflowError": ["ArithmeticError", "Exception"],
    "ValueError": ["Exception"], "RuntimeError": ["Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
    "Killed": [], "KeyboardInterrupt": [], "SystemExit": [],
    "AssertionError": ["Exception"], "TypeError": ["Exception"], "Exception": [],
}


def exc_matches(name, caught):
    return caught is None or name == caught or caught in EXC_PARENTS.get(name, ["Exception"]) or caught == "BaseException"


class Engine:
    def __init__(self, loader, lib, dsl=None, contracts=None, timeout=250):
        self.loader, self.lib, self.dsl = loader, lib, dsl or {}
        self.contracts = contracts or {}
        self.feas_cache = {}
        self.timeout = timeout
        self.obs, self.obkeys = [], set()
        self.funcs_seen = set()       # repo functions executed (inlined) or used by contract
        self.contracts_used = set()
        self.trusted_used = set()
        self.lemma = None
        self.stats = {"decides": 0, "feas_time": 0.0, "paths": 0}
        self.reset()

    # ------------------------------------------------------------------ run control
    def reset(self):
        self.heap, self.pc, self.bound, self.ctr = {}, [], [], 0
        self.cells = 0
        self.quiet = 0
        self.spec = 0
        self.try_stack = []
        self.depth = 0
        self.frozen_cells = set()
        self.writes = None
        self.sort_cache = {}
        self.perms, self.wits, self.keepalive = {}, [], []
        self.enums = {}
        self.hints = []
        self.cur_node = None
        self.call_stack = []

    def explore(self, thunk, max_paths=400):
        """Run thunk once per feasible path (replay with decision prefixes)."""
        todo = [[]]
        n = 0
        while todo:
            prefix = todo.pop()
            self.reset()
            self.chooser = Chooser(prefix)
            n += 1
            if n > max_paths:
                raise Unsupported("too many paths")
            try:
                thunk()
            except EndPath:
                pass
            todo.extend(self.chooser.alts)
        self.stats["paths"] += n
        return n

    def nested(self, thunk, export=True, collect_heap=False):
        """Run thunk on all local paths; returns list of dict(cond, out, value, vars?)."""
        sv = (self.chooser, self.heap, self.pc)
        base = len(self.pc)
        ctr0, cells0 = self.ctr, self.cells
        maxctr, maxcells = ctr0, cells0
        todo, res = [[]], []
        n = 0
        try:
            while todo:
                prefix = todo.pop()
                self.chooser = Chooser(prefix)
                self.heap = dict(sv[1])
                self.pc = list(sv[2])
                self.ctr, self.cells = ctr0, cells0
                n += 1
                if n > 200:
                    raise Unsupported("too many nested paths")
                out, val = "ok", None
                try:
                    val = thunk()
                except EndPath:
                    out = "end"
                except PyRaise as e:
                    out, val = "raise", e
                except ReturnX as e:
                    out, val = "return", e
                except BreakX:
                    out = "break"
                except ContinueX:
                    out = "continue"
                maxctr, maxcells = max(maxctr, self.ctr), max(maxcells, self.cells)
                todo.extend(self.chooser.alts)
                if out == "end":
                    continue
                new = self.pc[base:]
                gf, cur = [], []
                for k, t in new:
                    if k in ("p", "g", "x"):
                        cur = cur + [t]
                        if k == "x":
                            gf.append(("x", z3.Implies(z3.And(*cur[:-1]), t) if cur[:-1] else t))
                    elif k == "f":
                        gf.append(("f", z3.Implies(z3.And(*cur), t) if cur else t))
                res.append(dict(out=out, value=val, conds=[t for k, t in new if k == "p"],
                                gconds=[t for k, t in new if k in ("p", "g")], gfacts=gf,
                                facts=[t for k, t in new if k in ("f", "x")], heap=self.heap))
        finally:
            self.chooser, self.heap, self.pc = sv
            self.ctr, self.cells = maxctr, maxcells
        if export:
            seen = set()
            for r in res:
                for k, g in r["gfacts"]:
                    if g.get_id() not in seen:
                        seen.add(g.get_id())
                        self.pc.append((k, g))
        return res

    def merged(self, thunk):
        """Evaluate a pure thunk on all local paths and merge the values (raises become obligations)."""
        def t():
            v = thunk()
            return self.freeze(v)
        res = self.nested(t)
        oks = [r for r in res if r["out"] == "ok"]
        for r in res:
            if r["out"] == "raise":
                self.fail_path(r["conds"] + r["facts"], f"unexpected {r['value'].name}", r["value"].node)
                if r["conds"]:
                    self.assume_x(z3.Not(z3.And(*r["conds"])))
        if not oks:
            raise EndPath()
        v = oks[-1]["value"]
        for r in reversed(oks[:-1]):
            v = self.ite(z3.And(*r["conds"]) if r["conds"] else z3.BoolVal(True), r["value"], v)
        return v

    # ------------------------------------------------------------------ symbols
    def name(self, hint):
        self.ctr += 1
        return f"{hint}!{self.ctr}"

    def const(self, hint, sort=None):
        """plain constant (used as bound index)"""
        return z3.Const(self.name(hint), sort if sort is not None else z3.IntSort())

    def fresh(self, hint, sort, extra=()):
        args = list(self.bound) + list(extra)
        nm = self.name(hint)
        if not args:
            return z3.Const(nm, sort)
        return z3.Function(nm, *[a.sort() for a in args], sort)(*args)

    # ------------------------------------------------------------------ assumptions and obligations
    def assume(self, t, kind="f"):
        if isinstance(t, S):
            t = zb(t)
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise EndPath()
        self.pc.append((kind, t))

    def assume_x(self, t):
        """assume a condition that was just made an obligation; in quiet (dry) runs no obligation exists, so what
        follows is only used conditionally"""
        self.assume(t, "x" if self.quiet else "f")

    def hyps(self):
        return [t for _, t in self.pc]

    def add_ob(self, name, goal, node, hyps=None):
        if self.quiet:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(goal):
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        if z3.is_and(goal) and goal.num_args() <= 12:
            for i, g in enumerate(goal.children()):
                self.add_ob(name, g, node, hyps)
            return
        hyps = self.hyps() if hyps is None else hyps
        where = self.where(node)
        key = (name, where, goal.get_id(), tuple(h.get_id() for h in hyps))
        if key in self.obkeys:
            return
        self.obkeys.add(key)
        ob = Ob(name, hyps, goal, where, self.lemma)
        ob.perms, ob.wits, ob.enums = dict(self.perms), list(self.wits), dict(self.enums)
        self.obs.append(ob)

    def where(self, node):
        node = node if node is not None else self.cur_node
        fn = self.call_stack[-1] if self.call_stack else "?"
        ln = getattr(node, "lineno", "?")
        return f"{fn} line {ln}"

    def fail_path(self, conds, name, node):
        self.add_ob(name, z3.BoolVal(False), node, hyps=self.hyps() + list(conds))

    def require(self, cond, exc, what, node=None):
        """A run-time error condition: cond must hold, else Python raises exc."""
        if isinstance(cond, S):
            cond = zb(cond)
        if isinstance(cond, bool):
            if cond:
                return
            cond = z3.BoolVal(False)
        if z3.is_true(cond):
            return
        if self.spec:
            return
        for caught in reversed(self.try_stack):
            if any(exc_matches(exc, c) for c in caught):
                if not self.decide(cond):
                    raise PyRaise(exc, node)
                return
        self.add_ob(f"no {exc}: {what}", cond, node)
        self.assume_x(cond)

    # ------------------------------------------------------------------ deciding branches
    def check_feasible(self, extra):
        """False only if the ground part of the path is unsatisfiable with extra."""
        hy = [t for _, t in self.pc if not has_quant(t)] + [extra]
        key = tuple(sorted(h.get_id() for h in hy))
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        import time
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for h in hy:
            s.add(h)
        r = s.check() != z3.unsat
        self.stats["feas_time"] += time.time() - t0
        self.stats["decides"] += 1
        self.feas_cache[key] = (r, hy)
        return r

    def decide(self, cond):
        """Branch on cond: returns True/False on this path."""
        if isinstance(cond, S):
            cond = cond.v
        if isinstance(cond, bool):
            return cond
        sc = z3.simplify(cond)
        if z3.is_true(sc):
            return True
        if z3.is_false(sc):
            return False
        ft = self.check_feasible(cond)
        ff = self.check_feasible(z3.Not(cond))
        if not ft and not ff:
            raise EndPath()
        if not ff:
            return True
        if not ft:
            return False
        c = self.chooser.choose(2)
        if c == 0:
            self.pc.append(("p", cond))
            return True
        self.pc.append(("p", z3.Not(cond)))
        return False

    # ------------------------------------------------------------------ heap
    def alloc(self, cell):
        self.cells += 1
        self.heap[self.cells] = cell
        return Ref(self.cells)

    def cell(self, r):
        return self.heap[r.cid]

    def write(self, r, cell):
        if r.cid in self.frozen_cells:
            raise Unsupported("mutation of a list/object after it was stored in a symbolic container")
        if self.writes is not None:
            self.writes.add(r.cid)
        self.heap[r.cid] = cell

    def freeze(self, v):
        if isinstance(v, Ref):
            c = self.cell(v)
            self_f = self.freeze
            if isinstance(c, ListCell):
                return self_f(c.seq)
            if isinstance(c, DictCell):
                return self_f(c.m)
            if isinstance(c, SetCell):
                return c.s
            if isinstance(c, NdCell):
                return c.nd
            return ObjVal(c.cls, {k: self_f(x) for k, x in c.fields.items()}, c.ghost)
        if isinstance(v, Tup):
            return Tup([self.freeze(x) for x in v.items], v.cls)
        if isinstance(v, CSeq):
            return CSeq([self.freeze(x) for x in v.items], v.kind)
        if isinstance(v, CMap):
            return CMap([(k, self.freeze(x)) for k, x in v.pairs], v.default)
        if isinstance(v, Bound):
            return Bound(v.func, self.freeze(v.self_))
        return v

    def freeze_shared(self, v):
        """freeze a value that stays reachable elsewhere: its cells become read-only."""
        def mark(x):
            if isinstance(x, Ref):
                self.frozen_cells.add(x.cid)
                c = self.cell(x)
                if isinstance(c, ListCell):
                    mark(c.seq)
                elif isinstance(c, ObjCell):
                    for y in c.fields.values():
                        mark(y)
                elif isinstance(c, DictCell):
                    mark(c.m)
            elif isinstance(x, (Tup, CSeq)):
                for y in x.items:
                    mark(y)
            elif isinstance(x, CMap):
                for _, y in x.pairs:
                    mark(y)
        mark(v)
        return self.freeze(v)

    def thaw(self, v):
        """Fresh mutable copy (deepcopy) of a value."""
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                return self.alloc(ListCell(self.thaw_in(c.seq)))
            if isinstance(c, DictCell):
                return self.alloc(DictCell(self.thaw_in(c.m)))
            if isinstance(c, SetCell):
                return self.alloc(SetCell(c.s))
            if isinstance(c, NdCell):
                return self.alloc(NdCell(c.nd))
            r = self.alloc(ObjCell(c.cls, {k: self.thaw(x) for k, x in c.fields.items()}, c.ghost))
            return r
        if isinstance(v, Tup):
            return Tup([self.thaw(x) for x in v.items], v.cls)
        if isinstance(v, (Seq, GSeq, Flat, CSeq)):
            if v.kind == "list":
                return self.alloc(ListCell(self.thaw_in(v)))
            return self.thaw_in(v)
        if isinstance(v, (MapV, CMap)):
            return self.alloc(DictCell(self.thaw_in(v)))
        if isinstance(v, SetV):
            return self.alloc(SetCell(v))
        if isinstance(v, Nd):
            return self.alloc(NdCell(v))
        return v

    def thaw_in(self, v):
        if isinstance(v, CSeq):
            return CSeq([self.thaw(x) for x in v.items], v.kind)
        if isinstance(v, CMap):
            return CMap([(k, self.thaw(x)) for k, x in v.pairs], v.default)
        return v

    def new_list(self, seq):
        return self.alloc(ListCell(seq))

    # ------------------------------------------------------------------ scalars
    def num2(self, a, b):
        """coerce two numeric scalars to a common z3 sort or python numbers"""
        if a.conc and b.conc:
            return a.v, b.v, True
        ka, kb = a.kind, b.kind
        if "inf" in (ka, kb):
            raise Unsupported("infinity in arithmetic")
        if "str" in (ka, kb):
            return zs(a), zs(b), False
        if ka == "real" or kb == "real":
            return zr(a), zr(b), False
        return zi(a), zi(b), False

    def binop(self, op, a, b, node=None):
        if isinstance(op, ast.Add) and isinstance(a, S) and isinstance(b, S) and "str" in (a.kind, b.kind):
            if a.conc and b.conc:
                return S(a.v + b.v)
            return S(z3.Concat(zs(a), zs(b)))
        if isinstance(a, S) and isinstance(b, S):
            return self.sbin(op, a, b, node)
        from . import npmod
        r = npmod.binop(self, op, a, b, node)
        if r is not None:
            return r
        ac, bc = self.content(a), self.content(b)
        if isinstance(op, ast.Add):
            if self.is_seq(ac) and self.is_seq(bc):
                return self.wrap_like(ac, self.seq_concat(ac, bc))
            if isinstance(ac, Tup) and isinstance(bc, Tup):
                return Tup(ac.items + bc.items)
        if isinstance(op, ast.Mult):
            if self.is_seq(ac) and isinstance(bc, S):
                return self.wrap_like(ac, self.seq_repeat(ac, bc))
            if self.is_seq(bc) and isinstance(ac, S):
                return self.wrap_like(bc, self.seq_repeat(bc, ac))
        if isinstance(op, ast.BitOr) and isinstance(ac, SetV) and isinstance(bc, SetV):
            return self.alloc(SetCell(SetV(ac.kx, z3.Or(ac.mem, z3.substitute(bc.mem, (bc.kx, ac.kx))))))
        raise Unsupported(f"binary {type(op).__name__} on {type(ac).__name__}, {type(bc).__name__}")

    def sbin(self, op, a, b, node=None):
        if a.kind == "inf" or b.kind == "inf":
            raise Unsupported("infinity")
        x, y, conc = self.num2(a, b)
        if isinstance(op, ast.Add):
            return S(x + y)
        if isinstance(op, ast.Sub):
            return S(x - y)
        if isinstance(op, ast.Mult):
            return S(x * y)
        if isinstance(op, ast.Div):
            if conc:
                if y == 0:
                    self.require(False, "ZeroDivisionError", "division", node)
                    raise EndPath()
                return S(Fraction(x) / Fraction(y)) if (Fraction(x) / Fraction(y)) is not None else None
            xr, yr = zr(a), zr(b)
            self.require(yr != 0, "ZeroDivisionError", "division", node)
            return S(xr / yr)
        if isinstance(op, ast.FloorDiv):
            if conc:
                if y == 0:
                    self.require(False, "ZeroDivisionError", "division", node)
                    raise EndPath()
                return S(x // y)
            if a.kind == "real" or b.kind == "real":
                self.require(zr(b) != 0, "ZeroDivisionError", "division", node)
                return S(z3.ToReal(z3.ToInt(zr(a) / zr(b))))
            xi, yi = zi(a), zi(b)
            self.require(yi != 0, "ZeroDivisionError", "division", node)
            if b.conc and b.v > 0:
                return S(xi / yi)
            return S(z3.If(yi > 0, xi / yi, (-xi) / (-yi)))
        if isinstance(op, ast.Mod):
            if a.kind == "str":
                return self.fresh_str("fmt")
            if conc:
                return S(x % y)
            if a.kind == "real" or b.kind == "real":
                raise Unsupported("real modulo")
            xi, yi = zi(a), zi(b)
            self.require(yi != 0, "ZeroDivisionError", "modulo", node)
            if b.conc and b.v > 0:
                return S(xi % yi)
            return S(z3.If(yi > 0, xi % yi, -((-xi) % (-yi))))
        if isinstance(op, ast.Pow):
            return self.power(a, b, node)
        if isinstance(op, ast.LShift):
            if conc:
                return S(x << y)
            if a.conc and a.v == 1:
                return S(self.bits("shl1", zi(b)))
            raise Unsupported("shift")
        if isinstance(op, (ast.BitOr, ast.BitAnd)):
            if a.kind == "bool" and b.kind == "bool":
                return S((z3.Or if isinstance(op, ast.BitOr) else z3.And)(zb(a), zb(b)))
            if conc:
                return S(x | y if isinstance(op, ast.BitOr) else x & y)
            return S(self.bits("bor" if isinstance(op, ast.BitOr) else "band", zi(a), zi(b)))
        raise Unsupported(f"operator {type(op).__name__}")

    def bits(self, name, *args):
        f = z3.Function("bits_" + name, *[z3.IntSort()] * len(args), z3.IntSort())
        self.trusted_used.add("bit operations on non-negative ints (bit-wise axioms)")
        return f(*args)

    def power(self, a, b, node=None):
        if a.conc and b.conc:
            if b.kind in ("int", "bool"):
                if b.v >= 0:
                    return S(a.v ** b.v)
                return S(Fraction(a.v) ** b.v)
            raise Unsupported("concrete real power")
        if b.conc and b.kind == "int" and 0 <= b.v <= 6:
            base = zr(a) if a.kind == "real" else zi(a)
            r = base if b.v else (z3.RealVal(1) if a.kind == "real" else z3.IntVal(1))
            for _ in range(b.v - 1):
                r = r * base
            return S(r)
        if b.conc and b.kind == "real" and b.v == Fraction(1, 2):
            return S(T.Sqrt(zr(a)))
        if b.kind == "int":
            self.require(z3.Or(zr(a) != 0, zi(b) >= 0), "ZeroDivisionError", "power", node)
            if not b.conc or b.v >= 0:
                return S(T.Pow(zr(a), zi(b)))
        return S(T.PowR(zr(a), zr(b)))

    def fresh_str(self, hint):
        return S(self.fresh(hint, z3.StringSort()))

    def neg(self, a):
        if isinstance(a, S):
            if a.kind == "inf":
                return S(-a.v)
            if a.conc:
                return S(-a.v)
            return S(-(zr(a) if a.kind == "real" else zi(a)))
        from . import npmod
        r = npmod.unop(self, "neg", a)
        if r is None:
            raise Unsupported("negation")
        return r

    def cmp(self, op, a, b, node=None):
        """returns S bool (or array)"""
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, NoneV) or isinstance(b, NoneV):
                r = isinstance(a, NoneV) and isinstance(b, NoneV)
            else:
                r = self.veq(a, b)
                r = r.v if isinstance(r, S) else r
            neg = isinstance(op, ast.IsNot)
            return S((not r) if isinstance(r, bool) and neg else (z3.Not(r) if neg else r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                r = self.not_(r)
            return r
        if isinstance(a, S) and isinstance(b, S):
            if a.kind == "inf" or b.kind == "inf":
                return self.cmp_inf(op, a, b)
            if a.kind == "bool" and b.kind == "bool" and isinstance(op, (ast.Eq, ast.NotEq)):
                if a.conc and b.conc:
                    return S((a.v == b.v) == isinstance(op, ast.Eq))
                r = zb(a) == zb(b)
                return S(r if isinstance(op, ast.Eq) else z3.Not(r))
            if (a.kind == "str") != (b.kind == "str"):
                if isinstance(op, ast.Eq):
                    return S(False)
                if isinstance(op, ast.NotEq):
                    return S(True)
                raise Unsupported("comparing str with number")
            x, y, conc = self.num2(a, b)
            if isinstance(op, ast.Eq):
                r = x == y
            elif isinstance(op, ast.NotEq):
                r = x != y
            elif isinstance(op, ast.Lt):
                r = x < y
            elif isinstance(op, ast.LtE):
                r = x <= y
            elif isinstance(op, ast.Gt):
                r = x > y
            else:
                r = x >= y
            return S(r)
        from . import npmod
        r = npmod.cmp(self, op, a, b, node)
        if r is not None:
            return r
        if isinstance(op, ast.Eq):
            return S(self.veq(a, b))
        if isinstance(op, ast.NotEq):
            return self.not_(S(self.veq(a, b)))
        raise Unsupported(f"comparison {type(op).__name__} on {type(a).__name__},{type(b).__name__}")

    def cmp_inf(self, op, a, b):
        import operator
        ops = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
               ast.Gt: operator.gt, ast.GtE: operator.ge}
        x = a.v if a.kind == "inf" else 0
        y = b.v if b.kind == "inf" else 0
        return S(bool(ops[type(op)](float(x), float(y))))

    def not_(self, s):
        v = s.v if isinstance(s, S) else s
        if isinstance(v, bool):
            return S(not v)
        return S(z3.Not(v))

    def truth(self, v):
        """truth value as python bool or z3 Bool"""
        if isinstance(v, S):
            k = v.kind
            if v.conc:
                return bool(v.v)
            if k == "bool":
                return v.v
            if k == "str":
                return v.v != z3.StringVal("")
            return v.v != 0
        if isinstance(v, NoneV):
            return False
        if isinstance(v, Opq) and v.tag == "any":
            return self.fresh("truth", z3.BoolSort())
        if isinstance(v, (FuncV, Ext, ClassInfo, Opq, ObjVal, Bound, UFun)):
            return True
        c = self.content(v)
        if isinstance(c, Tup):
            return len(c.items) > 0
        if isinstance(c, (Nd,)):
            raise Unsupported("truth of array")
        if isinstance(c, (CSeq, Seq, GSeq, Flat, MapV, CMap, SetV)):
            n = self.length(c)
            return (n != 0) if isinstance(n, int) else n != 0
        if isinstance(c, ObjCell):
            return True
        raise Unsupported(f"truth of {type(c).__name__}")

    # ------------------------------------------------------------------ structured values
    def content(self, v):
        """contents of a reference (list/dict/set/array), or the value itself; objects stay cells"""
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                return c.seq
            if isinstance(c, DictCell):
                return c.m
            if isinstance(c, SetCell):
                return c.s
            if isinstance(c, NdCell):
                return c.nd
            return c
        return v

    def is_seq(self, v):
        return isinstance(v, (CSeq, Seq, GSeq, Flat))

    def wrap_like(self, like, seq):
        if like.kind == "list":
            return self.new_list(seq)
        return seq

    def length(self, v):
        c = self.content(v)
        if isinstance(c, (CSeq, Tup)):
            return len(c.items)
        if isinstance(c, Seq):
            return c.n
        if isinstance(c, GSeq):
            if getattr(c, "as_seq", None) is None:
                c.cnt = T.SumI(z3.Lambda([c.ix], z3.If(c.guard, z3.IntVal(1), z3.IntVal(0))), zi(c.n))
            return c.cnt
        if isinstance(c, Flat):
            c = getattr(c, "rev_of", c)
            inner = self.length(c.block)
            return T.SumI(z3.Lambda([c.ix], zi(inner)), zi(c.n))
        if isinstance(c, CMap):
            return len(c.pairs)
        if isinstance(c, MapV):
            return self.order(c)[4]
        if isinstance(c, SetV):
            return self.order(c)[4]
        if isinstance(c, Nd):
            return c.shape[0]
        if isinstance(c, S) and c.kind == "str":
            return len(c.v) if c.conc else z3.Length(c.v)
        raise Unsupported(f"len of {type(c).__name__}")

    def canon(self, terms, ixs):
        """identity key of terms up to renaming of the index constants"""
        sub = [(x, z3.Const(f"canon%{i}", x.sort())) for i, x in enumerate(ixs)]
        ts = [z3.substitute(t, *sub) if sub else t for t in terms]
        self.keepalive.append(ts)
        return tuple(t.get_id() for t in ts)

    def card_fn(self, sort):
        return {z3.IntSort(): T.CardI, z3.RealSort(): T.CardR}.get(sort, T.CardS)

    def order(self, m):
        """enumeration of a finite map/set: (jx, ek(jx), px, pos(px), n), with facts assumed"""
        if m.order is not None:
            return m.order
        if isinstance(m, MapV):
            dom, kx = m.dom, m.kx
        else:
            dom, kx = m.mem, m.kx
        nm = self.name("enum")
        args = list(self.bound)
        srt = [a.sort() for a in args]
        ekf = z3.Function("key_" + nm, *srt, z3.IntSort(), kx.sort())
        posf = z3.Function("pos_" + nm, *srt, kx.sort(), z3.IntSort())
        jx, px = self.const("jx"), self.const("px", kx.sort())
        n = self.card_fn(kx.sort())(z3.Lambda([kx], dom))
        ek, pos = ekf(*args, jx), posf(*args, px)
        self.assume(n >= 0)
        domp = z3.substitute(dom, (kx, px))
        self.assume(z3.ForAll([px], z3.Implies(domp, z3.And(0 <= pos, pos < n, ekf(*args, pos) == px)),
                              patterns=[pos]))
        self.assume(z3.ForAll([jx], z3.Implies(z3.And(0 <= jx, jx < n),
                                               z3.And(z3.substitute(dom, (kx, ek)), posf(*args, ek) == jx)),
                              patterns=[ek]))
        m.order = (jx, ek, px, pos, n)
        if not args:
            self.wits.append((px, z3.Implies(domp, z3.And(0 <= pos, pos < n, ekf(pos) == px))))
        self.enums[ekf.name()] = (kx, dom, px, pos, args, n)
        return m.order

    def keys_seq(self, m):
        if isinstance(m, CMap):
            return CSeq([k for k, _ in m.pairs])
        jx, ek, px, pos, n = self.order(m)
        return Seq(n, jx, S(ek), "list")

    def items_seq(self, m, what):
        if isinstance(m, CMap):
            if what == "values":
                return CSeq([v for _, v in m.pairs])
            return CSeq([Tup([k, v]) for k, v in m.pairs])
        jx, ek, px, pos, n = self.order(m)
        val = vsub(m.val, (m.kx, ek))
        if what == "values":
            return Seq(n, jx, val)
        return Seq(n, jx, Tup([S(ek), val]))

    def to_seq(self, v):
        """Anything iterable -> CSeq | Seq | GSeq | Flat"""
        c = self.content(v)
        if isinstance(c, (CSeq, Seq, GSeq, Flat)):
            return c
        if isinstance(c, Tup):
            return CSeq(c.items, "tuple")
        if isinstance(c, (MapV, CMap)):
            return self.keys_seq(c)
        if isinstance(c, SetV):
            jx, ek, px, pos, n = self.order(c)
            return Seq(n, jx, S(ek))
        if isinstance(c, Nd):
            from . import npmod
            return npmod.rows(self, c)
        raise Unsupported(f"iteration over {type(c).__name__}")

    def to_plain(self, s):
        """GSeq/Flat -> Seq (with filter axioms / regular blocks)"""
        if isinstance(s, (CSeq, Seq)):
            return s
        if isinstance(s, GSeq):
            if getattr(s, "as_seq", None) is not None:
                return s.as_seq
            m = self.length(s)
            args = [a for a in self.bound if contains_term(zi(s.n), a) or contains_term(s.guard, a)]
            srt = [a.sort() for a in args]
            nm = self.name("filt")
            f = z3.Function("nth_" + nm, *srt, z3.IntSort(), z3.IntSort())
            g = z3.Function("inv_" + nm, *srt, z3.IntSort(), z3.IntSort())
            k, j, k2 = self.const("k"), self.const("j"), self.const("k2")
            fk = f(*args, k)
            self.assume(m >= 0)
            self.assume(m <= zi(s.n))
            self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m),
                                                  z3.And(0 <= fk, fk < zi(s.n), z3.substitute(s.guard, (s.ix, fk)),
                                                         g(*args, fk) == k)), patterns=[fk]))
            self.assume(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < m), fk < f(*args, k2)),
                                  patterns=[z3.MultiPattern(fk, f(*args, k2))]))
            gj = g(*args, j)
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(s.n), z3.substitute(s.guard, (s.ix, j))),
                                                  z3.And(0 <= gj, gj < m, f(*args, gj) == j)), patterns=[gj]))
            if not args:
                self.wits.append((j, z3.Implies(z3.And(0 <= j, j < zi(s.n), z3.substitute(s.guard, (s.ix, j))),
                                                z3.And(0 <= gj, gj < m, f(gj) == j))))
            ix = self.const("ix")
            r = Seq(m, ix, vsub(s.el, (s.ix, f(*args, ix))), s.kind)
            s.as_seq = r
            r.from_filter = s
            return r
        if isinstance(s, Flat):
            b = s.block
            if isinstance(b, CSeq) and not b.items:
                return CSeq([], s.kind)
            if isinstance(b, (Seq, CSeq)):
                m = self.length(b)
                mz = zi(m)
                if not contains_term(mz, s.ix):
                    ix = self.const("ix")
                    inner = self.seq_get_raw(b, ix % mz)
                    el = vsub(inner, (s.ix, ix / mz))
                    return Seq(zi(s.n) * mz, ix, el, s.kind)
            raise Unsupported("irregular concatenation used as a sequence")
        raise Unsupported("to_plain")

    def seq_get_raw(self, s, k):
        """element at (in-range) index k: python int or z3 Int"""
        if isinstance(s, (GSeq, Flat)):
            s = self.to_plain(s)
        if isinstance(s, CSeq):
            if isinstance(k, int):
                return s.items[k]
            ks = z3.simplify(k)
            if z3.is_int_value(ks):
                i = ks.as_long()
                if 0 <= i < len(s.items):
                    return s.items[i]
            if not s.items:
                raise Unsupported("indexing an empty sequence")
            v = self.freeze(s.items[-1])
            for i in range(len(s.items) - 2, -1, -1):
                v = self.ite(k == i, self.freeze(s.items[i]), v)
            return v
        if s.el is None:
            raise Unsupported("element of a sequence with unknown elements")
        return vsub(s.el, (s.ix, zi(k)))

    def norm_index(self, n, k):
        """Python index -> non-negative index term; n length"""
        if isinstance(k, int):
            if k >= 0:
                return k
            return n + k
        return z3.If(k < 0, k + n, k) if self.maybe_negative(k) else k

    def maybe_negative(self, k):
        ks = z3.simplify(k)
        if z3.is_int_value(ks):
            return ks.as_long() < 0
        return self.check_feasible(k < 0)

    def seq_get(self, s, idx, node=None):
        n = self.length(s)
        k = idx.v if idx.conc else zi(idx)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, Fraction):
            raise Unsupported("float index")
        kk = self.norm_index(n, k)
        if isinstance(n, int) and isinstance(kk, int):
            if not 0 <= kk < n:
                self.require(False, "IndexError", "index in range", node)
                raise EndPath() if not self.spec else Unsupported("spec index out of range")
        else:
            self.require(z3.And(zi(kk) >= 0, zi(kk) < zi(n)), "IndexError", "index in range", node)
        return self.seq_get_raw(s, kk)

    def seq_set(self, s, idx, v, node=None):
        n = self.length(s)
        k = idx.v if idx.conc else zi(idx)
        kk = self.norm_index(n, k)
        if isinstance(n, int) and isinstance(kk, int):
            if not 0 <= kk < n:
                self.require(False, "IndexError", "assignment index in range", node)
                raise EndPath()
        else:
            self.require(z3.And(zi(kk) >= 0, zi(kk) < zi(n)), "IndexError", "assignment index in range", node)
        if isinstance(s, CSeq):
            kz = None if isinstance(kk, int) else z3.simplify(kk)
            if kz is None or z3.is_int_value(kz):
                i = kk if kz is None else kz.as_long()
                items = list(s.items)
                items[i] = v
                return CSeq(items, s.kind)
            v = self.freeze_shared(v)
            return CSeq([self.ite(kk == i, v, self.freeze(x)) for i, x in enumerate(s.items)], s.kind)
        s = self.to_plain(s)
        v = self.freeze_shared(v)
        return self.tmpl_set(s, zi(kk), v)

    def tmpl_set(self, s, k, v):
        old_k = vsub(s.el, (s.ix, k))
        # reads of the overwritten position inside v are the template's own element under ix == k
        if isinstance(old_k, S) and not old_k.conc and isinstance(v, S) and not v.conc \
                and z3.is_app(old_k.v) and old_k.v.decl().kind() == z3.Z3_OP_UNINTERPRETED and isinstance(s.el, S):
            v = S(z3.substitute(v.v, (old_k.v, s.el.v)))
        return Seq(s.n, s.ix, self.ite(s.ix == k, v, s.el), s.kind)

    def seq_append(self, s, v):
        if isinstance(s, CSeq):
            return CSeq(s.items + [v], s.kind)
        if isinstance(s, (GSeq, Flat)):
            s = self.to_plain(s)
        v = self.freeze_shared(v)
        n = zi(s.n)
        if s.el is None:
            return Seq(n + 1, s.ix, v, s.kind)
        return Seq(n + 1, s.ix, self.ite(s.ix == n, v, s.el), s.kind)

    def seq_concat(self, a, b):
        if isinstance(a, CSeq) and isinstance(b, CSeq):
            return CSeq(a.items + b.items, a.kind)
        if isinstance(a, CSeq) and not a.items:
            return b
        if isinstance(b, CSeq) and not b.items:
            return a
        if isinstance(a, Flat) and isinstance(a.block, Seq) and isinstance(b, (Seq, CSeq)) and self.freeze(b) is not None:
            b = self.to_plain(self.freeze(b))
            last = a.ix == zi(a.n)
            i = a.block.ix
            blk = Seq(z3.If(last, zi(self.length(b)), zi(a.block.n)), i, self.ite(last, self.freeze(self.seq_get_raw(b, i)), a.block.el), a.block.kind)
            return Flat(zi(a.n) + 1, a.ix, blk, a.kind)
        a, b = self.to_plain(a), self.to_plain(b)
        na, nb = zi(self.length(a)), zi(self.length(b))
        ix = self.const("ix")
        ea = self.freeze(self.seq_get_raw(a, ix)) if not (isinstance(a, Seq) and a.el is None) else None
        eb = self.freeze(self.seq_get_raw(b, ix - na)) if not (isinstance(b, Seq) and b.el is None) else None
        if ea is None:
            el = eb
        elif eb is None:
            el = ea
        else:
            el = self.ite(ix < na, ea, eb)
        return Seq(na + nb, ix, el, a.kind)

    def seq_repeat(self, a, k):
        if isinstance(a, CSeq) and k.conc:
            return CSeq(a.items * max(0, int(k.v)), a.kind)
        if isinstance(a, CSeq) and len(a.items) == 1:
            v = self.freeze_shared(a.items[0])
            if self.is_seq(v) and v.kind == "list":
                raise Unsupported("aliased repetition of a list")
            kz = zi(k)
            return Seq(z3.If(kz > 0, kz, z3.IntVal(0)) if self.check_feasible(kz < 0) else kz,
                       self.const("ix"), v, a.kind)
        if isinstance(a, CSeq) and not a.items:
            return a
        raise Unsupported("repetition of a longer sequence")

    def seq_slice(self, s, lo, hi, step, node=None):
        if step is not None and not isinstance(step, NoneV):
            if step.conc and step.v == -1 and isinstance(lo, NoneV) and isinstance(hi, NoneV):
                return self.seq_reverse(s)
            if not (step.conc and step.v == 1):
                if isinstance(s, CSeq) and step.conc and all(isinstance(x, NoneV) or x.conc for x in (lo, hi)):
                    f = lambda x: None if isinstance(x, NoneV) else x.v
                    return CSeq(s.items[f(lo):f(hi):step.v], s.kind)
                raise Unsupported("slice step")
        n = self.length(s)
        if isinstance(n, int) and all(isinstance(x, NoneV) or x.conc for x in (lo, hi)) and isinstance(s, CSeq):
            f = lambda x: None if isinstance(x, NoneV) else x.v
            return CSeq(s.items[f(lo):f(hi)], s.kind)
        s = self.to_plain(s)
        nz = zi(n)

        def clamp(x, default):
            if isinstance(x, NoneV):
                return default
            x = zi(x)
            neg = self.maybe_negative(x)
            if neg:
                x = z3.If(x < 0, z3.If(x + nz < 0, z3.IntVal(0), x + nz), x)
            if self.check_feasible(x > nz):
                x = z3.If(x > nz, nz, x)
            return x
        a = clamp(lo, z3.IntVal(0))
        b = clamp(hi, nz)
        ln = b - a
        if self.check_feasible(ln < 0):
            ln = z3.If(ln < 0, z3.IntVal(0), ln)
        ln, a = z3.simplify(ln), z3.simplify(a)
        if isinstance(s, Seq):
            return Seq(ln, s.ix, s.el if z3.is_int_value(a) and a.as_long() == 0 or s.el is None
                       else vsub(s.el, (s.ix, s.ix + a)), s.kind)
        ix = self.const("ix")
        return Seq(ln, ix, self.freeze(self.seq_get_raw(s, ix + a)), s.kind)

    def seq_reverse(self, s):
        if isinstance(s, Flat) and isinstance(s.block, (Seq, CSeq)):
            r = Flat(s.n, s.ix, vsub(self.seq_reverse(s.block), (s.ix, zi(s.n) - 1 - s.ix)), s.kind)
            r.rev_of = s
            self.trusted_used.add("permutation invariance of finite sums")
            return r
        s = self.to_plain(s)
        if isinstance(s, CSeq):
            return CSeq(s.items[::-1], s.kind)
        return Seq(s.n, s.ix, vsub(s.el, (s.ix, zi(s.n) - 1 - s.ix)), s.kind)

    def bag_sum(self, s, f):
        """sum of f(element) over a sequence; f: V -> S numeric. Uses permutation invariance of finite sums."""
        s = self.to_seq(s)
        if isinstance(s, CSeq):
            r = S(0)
            for x in s.items:
                r = self.sbin(ast.Add(), r, f(x))
            return r
        s = getattr(s, "rev_of", s)
        if isinstance(s, Flat):
            i = self.const("fi")
            inner = self.bag_sum(vsub(s.block, (s.ix, i)), f)
            return self.sum_over(i, inner, s.n)
        j = self.const("sj")
        el = vsub(s.el, (s.ix, j))
        t = f(el)
        if isinstance(s, GSeq):
            g = z3.substitute(s.guard, (s.ix, j))
            t = self.ite(g, t, S(0) if t.kind != "real" else S(Fraction(0)))
        r = self.sum_over(j, t, s.n)
        if s.perm is not None and not self.quiet_perm:
            self.quiet_perm = True
            try:
                r2 = self.bag_sum(s.perm, f)
            finally:
                self.quiet_perm = False
            if not (r.conc and r2.conc):
                a, b, _ = self.num2(r, r2)
                self.assume(a == b)
                self.trusted_used.add("finite sums are invariant under permutation (sorted sequences)")
        return r
    quiet_perm = False

    def sum_over(self, j, t, n):
        """Sum_{0<=j<n} t(j) as S"""
        if t.kind == "bool":
            t = S(zi(t))
        if t.conc:
            if t.v == 0:
                return S(0)
            nz = zi(n)
            return self.sbin(ast.Mult(), S(z3.If(nz > 0, nz, z3.IntVal(0)) if self.check_feasible(nz < 0) else nz), t)
        if not contains_term(t.v, j):
            nz = zi(n)
            nz = z3.If(nz > 0, nz, z3.IntVal(0)) if self.check_feasible(nz < 0) else nz
            if z3.is_app(t.v) and t.v.decl().kind() == z3.Z3_OP_ITE and t.kind != "real":
                return S(z3.If(t.v.arg(0), nz * t.v.arg(1), nz * t.v.arg(2)))
            return self.sbin(ast.Mult(), S(nz), t)
        F = T.SumR if t.kind == "real" else T.SumI
        return S(F(z3.Lambda([j], t.v), zi(n)))

    # ------------------------------------------------------------------ ite / equality / containment
    def ite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, S) and isinstance(b, S):
            if a.conc and b.conc and type(a.v) == type(b.v) and a.v == b.v:
                return a
            if not a.conc and not b.conc and a.v.eq(b.v):
                return a
            ka, kb = a.kind, b.kind
            if "inf" in (ka, kb):
                raise CannotMerge("infinity")
            if "str" in (ka, kb):
                if ka != kb:
                    raise CannotMerge("str/number")
                return S(z3.If(c, zs(a), zs(b)))
            if ka == kb == "bool":
                return S(z3.If(c, zb(a), zb(b)))
            if "real" in (ka, kb):
                x, y = zr(a), zr(b)
            else:
                x, y = zi(a), zi(b)
            return a if x.eq(y) else S(z3.If(c, x, y))
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.ite(c, x, y) for x, y in zip(a.items, b.items)], a.cls)
        if isinstance(a, CSeq) and isinstance(b, CSeq) and len(a.items) == len(b.items):
            return CSeq([self.ite(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, ObjVal) and isinstance(b, ObjVal) and a.cls is b.cls and set(a.fields) == set(b.fields):
            gh = None
            if a.ghost and b.ghost:
                gh = {k: self.ite(c, a.ghost[k], b.ghost[k]) for k in a.ghost}
            return ObjVal(a.cls, {k: self.ite(c, a.fields[k], b.fields[k]) for k in a.fields}, gh)
        if self.is_seq(a) and self.is_seq(b):
            a, b = self.to_plain(a), self.to_plain(b)
            na, nb = self.length(a), self.length(b)
            ix = self.const("ix")
            ea = None if (isinstance(a, CSeq) and not a.items) or (isinstance(a, Seq) and a.el is None) else self.seq_get_raw(a, ix)
            eb = None if (isinstance(b, CSeq) and not b.items) or (isinstance(b, Seq) and b.el is None) else self.seq_get_raw(b, ix)
            n = na if (isinstance(na, int) and isinstance(nb, int) and na == nb) or (is_z(na) and is_z(nb) and na.eq(nb)) else z3.If(c, zi(na), zi(nb))
            return Seq(n, ix, self.ite(c, ea, eb), a.kind)
        if isinstance(a, (MapV, CMap)) and isinstance(b, (MapV, CMap)):
            if isinstance(a, CMap) and isinstance(b, CMap) and [k.v for k, _ in a.pairs] == [k.v for k, _ in b.pairs]:
                return CMap([(k, self.ite(c, x, y)) for (k, x), (_, y) in zip(a.pairs, b.pairs)], a.default)
            a, b = self.to_mapv(a, b), self.to_mapv(b, a)
            return MapV(a.kx, z3.If(c, a.dom, z3.substitute(b.dom, (b.kx, a.kx))),
                        self.ite(c, a.val, vsub(b.val, (b.kx, a.kx)) if b.val is not None else None), a.default)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return SetV(a.kx, z3.If(c, a.mem, z3.substitute(b.mem, (b.kx, a.kx))))
        if isinstance(a, Nd) and isinstance(b, Nd) and len(a.shape) == len(b.shape):
            sh = [x if (isinstance(x, int) and isinstance(y, int) and x == y) or (is_z(x) and is_z(y) and x.eq(y)) else z3.If(c, zi(x), zi(y))
                  for x, y in zip(a.shape, b.shape)]
            return Nd(sh, a.ixs, self.ite(c, a.el, vsub(b.el, *zip(b.ixs, a.ixs))))
        if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag:
            return a
        raise CannotMerge(f"cannot merge {type(a).__name__} with {type(b).__name__}")

    def veq(self, a, b):
        """python bool or z3 Bool: structural equality of two values"""
        a, b = self.content(a), self.content(b)
        if isinstance(a, S) and isinstance(b, S):
            r = self.cmp(ast.Eq(), a, b).v
            return r
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return isinstance(a, NoneV) and isinstance(b, NoneV)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.veq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (CSeq, Tup)) and isinstance(b, (CSeq, Tup)):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.veq(x, y) for x, y in zip(a.items, b.items)])
        if (self.is_seq(a) or isinstance(a, Tup)) and (self.is_seq(b) or isinstance(b, Tup)):
            a, b = self.to_plain(self.to_seq(a)), self.to_plain(self.to_seq(b))
            na, nb = zi(self.length(a)), zi(self.length(b))
            empty = [x for x in (a, b) if (isinstance(x, CSeq) and not x.items) or (isinstance(x, Seq) and x.el is None)]
            if empty:
                return z3.And(na == nb)
            ix = self.const("ix")
            e = self.veq(self.seq_get_raw(a, ix), self.seq_get_raw(b, ix))
            e = z3.BoolVal(e) if isinstance(e, bool) else e
            return z3.And(na == nb, z3.ForAll([ix], z3.Implies(z3.And(0 <= ix, ix < na), e)))
        if isinstance(a, (MapV, CMap)) and isinstance(b, (MapV, CMap)):
            a, b = self.to_mapv(a, b), self.to_mapv(b, a)
            k = self.const("k", a.kx.sort())
            da, db = z3.substitute(a.dom, (a.kx, k)), z3.substitute(b.dom, (b.kx, k))
            e = self.veq(vsub(a.val, (a.kx, k)), vsub(b.val, (b.kx, k)))
            e = z3.BoolVal(e) if isinstance(e, bool) else e
            return z3.ForAll([k], z3.And(da == db, z3.Implies(da, e)))
        if isinstance(a, SetV) and isinstance(b, SetV):
            k = self.const("k", a.kx.sort())
            return z3.ForAll([k], z3.substitute(a.mem, (a.kx, k)) == z3.substitute(b.mem, (b.kx, k)))
        if isinstance(a, Nd) and isinstance(b, Nd) and len(a.shape) == len(b.shape):
            ks = [self.const("k") for _ in a.shape]
            e = self.veq(vsub(a.el, *zip(a.ixs, ks)), vsub(b.el, *zip(b.ixs, ks)))
            e = z3.BoolVal(e) if isinstance(e, bool) else e
            rng = z3.And(*[z3.And(0 <= k, k < zi(s)) for k, s in zip(ks, a.shape)])
            return z3.And(*[zi(x) == zi(y) for x, y in zip(a.shape, b.shape)], z3.ForAll(ks, z3.Implies(rng, e)))
        if isinstance(a, (ObjVal, ObjCell)) and isinstance(b, (ObjVal, ObjCell)) and a.cls is b.cls:
            return self.conj([self.veq(a.fields[k], b.fields[k]) for k in a.fields])
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a is b
        if type(a) is not type(b):
            return False
        raise Unsupported(f"equality of {type(a).__name__}")

    def conj(self, l):
        out = []
        for x in l:
            if isinstance(x, bool):
                if not x:
                    return False
            else:
                out.append(x)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def contains(self, c, x):
        c = self.content(c)
        if isinstance(c, (CSeq, Tup)):
            rs = [self.veq(x, y) for y in c.items]
            if any(r is True for r in rs):
                return S(True)
            rs = [r for r in rs if r is not False]
            return S(z3.Or(*rs)) if rs else S(False)
        if isinstance(c, CMap):
            return self.contains(CSeq([k for k, _ in c.pairs]), x)
        if isinstance(c, MapV):
            return S(z3.substitute(c.dom, (c.kx, self.key_term(c.kx, x))))
        if isinstance(c, SetV) and z3.is_false(c.mem):
            return S(False)
        if isinstance(c, SetV):
            return S(z3.substitute(c.mem, (c.kx, self.key_term(c.kx, x))))
        if isinstance(c, (Seq, GSeq)):
            j = self.const("j")
            e = self.veq(vsub(c.el, (c.ix, j)), x)
            e = z3.BoolVal(e) if isinstance(e, bool) else e
            g = [z3.substitute(c.guard, (c.ix, j))] if isinstance(c, GSeq) else []
            return S(z3.Exists([j], z3.And(0 <= j, j < zi(c.n), *g, e)))
        raise Unsupported(f"in {type(c).__name__}")

    def key_term(self, kx, x):
        if not isinstance(x, S):
            raise Unsupported("non-scalar key")
        s = kx.sort()
        return zi(x) if s == z3.IntSort() else zr(x) if s == z3.RealSort() else zs(x)

    def to_mapv(self, m, like=None):
        if isinstance(m, MapV):
            if m.val is None and isinstance(like, MapV) and like.val is not None:
                return MapV(m.kx, m.dom, vsub(like.val, (like.kx, m.kx)), m.default)
            return m
        if not m.pairs:
            if isinstance(like, MapV):
                return MapV(like.kx, z3.BoolVal(False), like.val, m.default)
            raise Unsupported("empty map of unknown type")
        ks = m.pairs[0][0].kind
        kx = self.const("kx", {"int": z3.IntSort(), "str": z3.StringSort(), "real": z3.RealSort()}[ks])
        dom, val = z3.BoolVal(False), None
        for k, v in m.pairs:
            kt = self.key_term(kx, k)
            val = self.freeze_shared(v) if val is None else self.ite(kx == kt, self.freeze_shared(v), val)
            dom = z3.Or(dom, kx == kt)
        return MapV(kx, dom, self.norm_val(dom, val), m.default)

    def norm_val(self, dom, val):
        if isinstance(val, S) and val.kind in ("int", "real", "bool"):
            return self.ite(dom, val, S(0) if val.kind != "real" else S(Fraction(0)))
        return val

    def map_set(self, m, k, v):
        if isinstance(m, CMap):
            if k.conc:
                pairs = list(m.pairs)
                for i, (kk, _) in enumerate(pairs):
                    if kk.v == k.v:
                        pairs[i] = (kk, v)
                        return CMap(pairs, m.default)
                return CMap(pairs + [(k, v)], m.default)
            if not m.pairs:
                kx = self.const("kx", zany(k).sort())
                kt = zany(k)
                v = self.freeze_shared(v)
                return MapV(kx, kx == kt, self.norm_val(kx == kt, v), m.default)
            m = self.to_mapv(m)
        kt = self.key_term(m.kx, k)
        v = self.freeze_shared(v)
        if m.val is None:
            return MapV(m.kx, z3.Or(m.dom, m.kx == kt), self.norm_val(m.kx == kt, v), m.default)
        old = vsub(m.val, (m.kx, kt))
        if isinstance(old, S) and not old.conc and isinstance(v, S) and not v.conc and isinstance(m.val, S) and not m.val.conc \
                and z3.is_app(old.v) and old.v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            v = S(z3.substitute(v.v, (old.v, m.val.v)))
        return MapV(m.kx, z3.Or(m.dom, m.kx == kt), self.ite(m.kx == kt, v, m.val), m.default)

    def map_get(self, ref, m, k, node=None):
        """d[k] (may insert the default for defaultdict)"""
        if isinstance(m, CMap):
            if k.conc:
                for kk, v in m.pairs:
                    if kk.v == k.v:
                        return v
                if m.default is not None:
                    v = self.call(m.default, [], {}, node)
                    if isinstance(ref, Ref):
                        self.write(ref, DictCell(CMap(m.pairs + [(k, v)], m.default)))
                    return v
                self.require(False, "KeyError", "key present", node)
                raise EndPath()
            if not m.pairs:
                if m.default is not None:
                    v = self.call(m.default, [], {}, node)
                    if isinstance(ref, Ref):
                        self.write(ref, DictCell(self.map_set(m, k, v)))
                    return v
                self.require(False, "KeyError", "key present", node)
                raise EndPath()
            m = self.to_mapv(m)
        kt = self.key_term(m.kx, k)
        inside = z3.substitute(m.dom, (m.kx, kt))
        if m.default is not None:
            if m.val is None:
                v = self.call(m.default, [], {}, node)
                if isinstance(ref, Ref):
                    self.write(ref, DictCell(self.map_set(m, k, v)))
                return v
            if isinstance(ref, Ref) and isinstance(m.val, S):
                # reading inserts the default; numeric defaults are the normal form outside the domain
                self.write(ref, DictCell(MapV(m.kx, z3.Or(m.dom, m.kx == kt), m.val, m.default)))
            if isinstance(m.val, S):
                return vsub(m.val, (m.kx, kt))
            if self.decide(inside):
                return vsub(m.val, (m.kx, kt))
            v = self.call(m.default, [], {}, node)
            if isinstance(ref, Ref):
                self.write(ref, DictCell(self.map_set(m, k, v)))
            return v
        self.require(inside, "KeyError", "key present", node)
        if m.val is None:
            raise Unsupported("value of empty map")
        return vsub(m.val, (m.kx, kt))

    def map_get_default(self, m, k, d):
        if isinstance(m, CMap):
            if k.conc:
                for kk, v in m.pairs:
                    if kk.v == k.v:
                        return v
                return d
            if not m.pairs:
                return d
            m = self.to_mapv(m)
        if m.val is None:
            return d
        kt = self.key_term(m.kx, k)
        v = vsub(m.val, (m.kx, kt))
        if isinstance(d, S) and d.conc and d.v == 0 and isinstance(v, S) and v.kind in ("int", "real"):
            return v                      # numeric maps are 0 outside their domain
        inside = z3.substitute(m.dom, (m.kx, kt))
        try:
            return self.ite(inside, v, self.freeze(d))
        except CannotMerge:
            return v if self.decide(inside) else d

    # ------------------------------------------------------------------ fresh values of a type
    def fresh_value(self, ty, hint, extra=()):
        """ty: type descriptor tuples, see dsl.py"""
        k = ty[0]
        if k in ("int", "nat"):
            t = self.fresh(hint, z3.IntSort(), extra)
            if k == "nat":
                self.assume_q(t >= 0, extra, [t])
            return S(t)
        if k == "real":
            return S(self.fresh(hint, z3.RealSort(), extra))
        if k == "bool":
            return S(self.fresh(hint, z3.BoolSort(), extra))
        if k == "str":
            return S(self.fresh(hint, z3.StringSort(), extra))
        if k == "none":
            return NONE
        if k == "tuple":
            return Tup([self.fresh_value(t, f"{hint}.{i}", extra) for i, t in enumerate(ty[1])])
        if k in ("list", "tuplelist"):
            n = self.fresh(f"len({hint})", z3.IntSort(), extra)
            self.assume_q(n >= 0, extra, [n])
            ix = self.const("ix")
            el = self.fresh_value(ty[1], hint + "[]", tuple(extra) + (ix,))
            s = Seq(n, ix, el, "list" if k == "list" else "tuple")
            return s
        if k == "dict":
            ks = {"int": z3.IntSort(), "nat": z3.IntSort(), "str": z3.StringSort(), "real": z3.RealSort()}[ty[1][0]]
            kx = self.const("kx", ks)
            dom = self.fresh("dom(" + hint + ")", z3.BoolSort(), tuple(extra) + (kx,))
            val = self.fresh_value(ty[2], hint + "{}", tuple(extra) + (kx,))
            if isinstance(val, S) and val.kind in ("int", "real"):
                self.assume_q(z3.Implies(z3.Not(dom), val.v == 0), tuple(extra) + (kx,), [val.v])
            return MapV(kx, dom, val)
        if k == "set":
            ks = {"int": z3.IntSort(), "nat": z3.IntSort(), "str": z3.StringSort(), "real": z3.RealSort()}[ty[1][0]]
            kx = self.const("kx", ks)
            return SetV(kx, self.fresh("mem(" + hint + ")", z3.BoolSort(), tuple(extra) + (kx,)))
        if k == "array":
            nd = ty[1]
            shape = []
            for d in range(nd):
                n = self.fresh(f"dim{d}({hint})", z3.IntSort(), extra)
                self.assume_q(n >= 0, extra, [n])
                shape.append(n)
            ixs = [self.const("ix") for _ in range(nd)]
            return Nd(shape, ixs, S(self.fresh(hint, z3.IntSort() if len(ty) > 2 and ty[2] == "int" else z3.RealSort(), tuple(extra) + tuple(ixs))))
        if k == "fun":
            srt = {"int": z3.IntSort(), "nat": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
            args = list(self.bound) + list(extra)
            f = z3.Function(self.name(hint), *[a.sort() for a in args], *[srt[t[0]] for t in ty[1]], srt[ty[2][0]])
            uf = UFun(lambda *xs: f(*args, *xs), [t[0] for t in ty[1]])
            if ty[2][0] == "nat":
                xs = [self.const("x", srt[t[0]]) for t in ty[1]]
                self.assume_q(f(*args, *xs) >= 0, tuple(extra) + tuple(xs), [f(*args, *xs)])
            return uf
        if k == "obj":                     # ("obj", classname-or-ClassInfo, {arg: type})
            cls = self.find_class(ty[1])
            argv = {a: self.fresh_value(t, f"{hint}.{a}", extra) for a, t in ty[2].items()}
            return ("mk", cls, argv)
        raise Unsupported(f"type {ty}")

    def assume_q(self, t, extra, pats):
        """assume t, universally over the template constants in extra (bound ones are handled by export)"""
        if extra:
            self.assume(z3.ForAll(list(extra), t, patterns=pats))
        else:
            self.assume(t)

    def find_class(self, ref):
        if isinstance(ref, ClassInfo):
            return ref
        mod, name = ref.split(":")
        m = self.loader.module(f"{PKG}.{mod}")
        if m is None or name not in m.classes:
            raise Unsupported(f"class {ref} not found")
        return m.classes[name]


def has_quant(t):
    k = t.get_id()
    r = _hq.get(k)
    if r is not None:
        return r[0]
    stack, seen, res = [t], set(), False
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            res = True
            break
        stack.extend(e.children())
    _hq[k] = (res, t)
    return res


_hq = {}


def contains_term(t, x):
    stack, seen = [t], set()
    xi = x.get_id()
    while stack:
        e = stack.pop()
        if e.get_id() == xi:
            return True
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    return False
