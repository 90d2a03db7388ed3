"""Reads the contracts, runs the symbolic execution of the real functions and discharges all obligations."""
import ast
import glob
import os
import sys
import time
import traceback
import z3
from .values import *
from .engine import Env, EndPath, PyRaise, Engine
from .interp import Interp
from .loader import Loader, PKG
from . import lib, dsl, solve

sys.setrecursionlimit(20000)


class Lemma:
    def __init__(self, name, mod, node, meta, kind):
        self.name, self.mod, self.node, self.kind = name, mod, node, kind
        self.props = meta.get("props", [])
        self.types = meta.get("types", {})
        self.qual = meta.get("qual")
        self.returns = meta.get("returns")
        self.pure = meta.get("pure", True)
        self.symbolic = meta.get("symbolic", True)
        self.tier = meta.get("tier", "quick")
        self.inline = meta.get("inline", False)
        self.modular = meta.get("modular", True)
        self.budget = meta.get("budget")
        self.functional = meta.get("functional")
        self.frame = meta.get("frame", ())

    def target(self, e):
        m, f = self.qual.split(":")
        mod = e.loader.module(f"{PKG}.{m}")
        if mod is None:
            raise Unsupported(f"module of {self.qual} not found")
        if "." in f:
            c, f = f.split(".")
            if c not in mod.classes:
                raise Unsupported(f"class of {self.qual} not found")
            r = e.find_method(mod.classes[c], f)
        else:
            r = FuncV(mod.funcs[f], mod) if f in mod.funcs else None
        if r is None:
            raise Unsupported(f"{self.qual} not found")
        return r


def load(contract_dir, repo):
    files = sorted(glob.glob(os.path.join(contract_dir, "*.py")))
    extra = {"contracts." + os.path.basename(f)[:-3]: f for f in files}
    ld = Loader(repo, extra)
    out, nss = [], {}

    def ns_of(name):
        if name in nss:
            return nss[name]
        ns = nss[name] = dict(dsl.TYPE_NS)
        mod = ld.module(name)
        for st in mod.tree.body:
            if isinstance(st, ast.ImportFrom) and (st.module or "") in extra:
                other = ns_of(st.module)
                for al in st.names:
                    if al.name in other:
                        ns[al.asname or al.name] = other[al.name]
        for k, v in mod.assigns.items():
            try:
                ns[k] = eval(compile(ast.Expression(v), name, "eval"), {"__builtins__": {"dict": dict}}, ns)
            except Exception:
                pass
        return ns
    for name in extra:
        mod = ld.module(name)
        ns = ns_of(name)
        for f in mod.funcs.values():
            for dec in f.decorator_list:
                if isinstance(dec, ast.Call) and isinstance(dec.func, ast.Name) and dec.func.id in ("lemma", "contract"):
                    meta = {}
                    for i, a in enumerate(dec.args):
                        if dec.func.id == "contract" and i == 0:
                            meta["qual"] = eval(compile(ast.Expression(a), name, "eval"), {"__builtins__": {"dict": dict}}, ns)
                    for kw in dec.keywords:
                        if kw.arg in ("gen", "rt"):
                            continue
                        meta[kw.arg] = eval(compile(ast.Expression(kw.value), name, "eval"), {"__builtins__": {"dict": dict}}, ns)
                    out.append(Lemma(f.name, mod, f, meta, dec.func.id))
    return ld, out


class Result:
    def __init__(self, lemma):
        self.lemma = lemma
        self.obs, self.error, self.paths, self.trivial, self.checks = [], None, 0, 0, 0
        self.funcs, self.contracts_used, self.trusted, self.time = set(), set(), set(), 0.0
        self.vacuous = False


def make_contracts(lemmas):
    return {l.qual: l for l in lemmas if l.kind == "contract" and l.modular}


def generate(ld, lemmas, l, timeout=250):
    """symbolic execution of one lemma/contract: list of obligations"""
    t0 = time.time()
    res = Result(l)
    e = Interp(ld, lib, dsl.D, make_contracts(lemmas), timeout)
    e.lemma = l
    e.applying, e.cur_contract = [], [l]
    e.inline_all = l.inline
    e.frame = tuple(l.frame)
    e.nchecks = 0
    e.fun_cache = {}
    e.trivial = 0
    ends = []

    def thunk():
        e.applying, e.cur_contract = [], [l]
        e.raise_epoch, e.ghost_ops = None, 0
        for m in ld.mods.values():
            if m is not None:
                m.cache.clear()
        e.call_stack.append(l.mod.name + ":" + l.name)
        args = {}
        for p in l.node.args.args:
            args[p.arg] = e.make(l.types[p.arg], p.arg) if p.arg in l.types else None
            if args[p.arg] is None:
                raise Unsupported(f"no type for {p.arg}")
        try:
            e.call_func(FuncV(l.node, l.mod), [], args)
            ends.append(e.hyps())
        except PyRaise as x:
            e.add_ob(f"no exception: {x.name}", z3.BoolVal(False), x.node)
    try:
        res.paths = e.explore(thunk)
    except Unsupported as x:
        res.error = f"outside the verifier's reach: {x} at {e.where(e.cur_node)} [{'>'.join(e.call_stack[-4:])}]"
        res.tb = traceback.format_exc()
    except (z3.Z3Exception, RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as x:
        res.error = f"verifier error: {type(x).__name__}: {x} at {e.where(e.cur_node)} [{'>'.join(e.call_stack[-4:])}]"
        res.tb = traceback.format_exc()
    res.obs, res.trivial, res.checks = e.obs, e.trivial, e.nchecks
    res.funcs, res.contracts_used, res.trusted = e.funcs_seen, e.contracts_used, e.trusted_used
    # vacuity: some end of the contract must be reachable (not refutable)
    res.vacuous = not res.error and (not ends or res.checks == 0)
    if ends and not res.error:
        if all(refuted(h) for h in ends):
            res.vacuous = True
    res.time = time.time() - t0
    return res


def refuted(hs):
    """in a child that is killed after its time: z3 does not always keep to its timeout"""
    import select
    import signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            s = z3.Solver()
            s.set("timeout", 500)
            for h in hs:
                s.add(h)
            os.write(wr, b"u" if s.check() == z3.unsat else b"n")
        finally:
            os._exit(0)
    os.close(wr)
    r = select.select([rd], [], [], 3)[0]
    out = os.read(rd, 1) if r else b""
    os.close(rd)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return out == b"u"


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--dir", default=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
    ap.add_argument("--prop")
    ap.add_argument("--lemma")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--tb", action="store_true")
    ap.add_argument("--dump", action="store_true")
    a = ap.parse_args(argv)
    ld, lemmas = load(a.dir, a.repo)
    for l in lemmas:
        if a.prop and a.prop not in l.props or a.lemma and a.lemma != l.name or not l.symbolic:
            continue
        r = generate(ld, lemmas, l)
        solve.solve_all(r.obs, a.procs, a.budget)
        bad = [o for o in r.obs if o.status != "unsat"]
        print(f"{'OK  ' if not bad and not r.error and not r.vacuous else 'FAIL'} {l.mod.short}.{l.name}: {len(r.obs)} obligations, "
              f"{len(r.obs)-len(bad)} discharged, {r.trivial} trivial, {r.checks} checks, {r.paths} paths, gen {r.time:.1f}s, "
              f"solve {sum(o.time for o in r.obs):.1f}s{' VACUOUS' if r.vacuous else ''}", flush=True)
        if r.error:
            print("   ", r.error)
            if a.tb:
                print(r.tb)
        for o in bad:
            print("    --", o.name, "|", o.where, "|", o.solver, "|", (o.model or "")[:700].replace("\n", "\n       "))
            if a.dump:
                for h in o.hyps:
                    print("        H", h)
                print("        G", o.goal)
        if a.v:
            for o in r.obs:
                print("    ", o.status, o.name, o.where, o.solver, f"{o.time:.1f}")


if __name__ == "__main__":
    main(sys.argv[1:])
