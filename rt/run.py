"""Executes contracts on the real code for generated inputs (PyPy 3.9, the interpreter the code runs under).

usage: run.py --prop C01 --seconds 30 --seed 1 --out OUT.json [--lemma NAME] [--replay FILE]
"""
import argparse
import ast
import copy
import faulthandler
import glob
import importlib.util
import io
import json
import os
import random
import re
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.append(os.path.join(ROOT, "stubs"))
sys.path.append(os.path.join(ROOT, "contracts"))
import pyvc_dsl as D  # noqa: E402

PKG = "wfa_planning_evaluation_framework"
REPO_SRC = "/repo/src"


# ------------------------------------------------------------------ constants of the source
def source_constants(quals):
    """int and float literals of the source files (an input at such a value, or one off, is worth trying)"""
    ints, floats = set(), set()
    for f in sorted(quals):
        try:
            tree = ast.parse(open(f).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int) and abs(n.value) < 1 << 40:
                    ints.add(n.value)
                if isinstance(n.value, float) and abs(n.value) < 1e15:
                    floats.add(n.value)
    ints |= {int(x) for x in floats if x == int(x)}
    ints |= {c + 1 for c in ints} | {c - 1 for c in ints}
    return sorted(ints), sorted(floats)


class Gen:
    def __init__(self, rng, size, ints, floats):
        self.rng, self.size, self.ints, self.floats = rng, size, ints, floats
        self.args = {}
        self.style = rng.random()

    def int(self, lo=None, hi=None):
        r = self.rng
        if lo is None:
            lo = -self.size if r.random() < 0.5 else 0
        if hi is None:
            hi = max(lo, self.size)
        if r.random() < 0.12 and self.ints:
            c = r.choice(self.ints)
            if lo <= c and (c <= hi or r.random() < 0.3 and c < 10000):
                return c if c <= hi or hi == max(lo, self.size) else hi
        return r.randint(lo, hi)

    def real(self, lo=None, hi=None):
        r = self.rng
        if lo is None:
            lo = 0 if r.random() < 0.8 else -self.size
        if hi is None:
            hi = max(lo, self.size)
        u = r.random()
        if u < 0.08 and self.floats:
            c = r.choice(self.floats)
            if lo <= c <= hi:
                return float(c)
        if u < 0.5:
            return float(min(hi, max(lo, r.randint(int(lo * 4), int(hi * 4)) / 4)))
        if u < 0.6:
            return float(r.randint(int(lo), max(int(lo), int(hi))))
        if u < 0.65:
            return float(r.choice([lo, hi]))
        return r.uniform(lo, hi)

    def length(self, lo=0, hi=None):
        r = self.rng
        hi = self.size if hi is None else hi
        if r.random() < 0.04 and self.size > 8:
            c = [x for x in self.ints if lo <= x <= 400]
            if c:
                return r.choice(c)
        return r.randint(lo, max(lo, hi))

    def list(self, t, lo=0, hi=None):
        n = self.length(lo, hi)
        xs = [self.make(t) for _ in range(n)]
        if n > 1 and self.rng.random() < 0.3:      # ties
            for _ in range(n // 3 + 1):
                xs[self.rng.randrange(n)] = copy.deepcopy(xs[self.rng.randrange(n)])
        u = self.rng.random()
        if u < 0.12:
            try:
                xs.sort()
                if self.rng.random() < 0.4:
                    xs.reverse()
            except TypeError:
                pass
        return xs

    def make(self, t):
        r, k = self.rng, t[0]
        if k == "int":
            return self.int()
        if k == "nat":
            return self.int(0)
        if k == "real":
            return self.real()
        if k == "bool":
            return r.random() < 0.5
        if k == "str":
            return r.choice(["", "a", "b", "pub", "x_1", "name", "é"])
        if k == "list":
            sub = self.sub()
            if t[1][0] in ("list", "obj", "dict"):
                n = r.randint(0, min(4, 1 + self.size // 2))
                return [sub.make(t[1]) for _ in range(n)]
            return self.list(t[1])
        if k == "tuplelist":
            return tuple(self.list(t[1]))
        if k == "tuple":
            return tuple(self.make(x) for x in t[1])
        if k == "dict":
            return {self.make(t[1]): self.make(t[2]) for _ in range(self.length())}
        if k == "set":
            return {self.make(t[1]) for _ in range(self.length())}
        if k == "array":
            import numpy as np
            n = [max(1, self.length(1, min(self.size, 5))) for _ in range(t[1])]
            return np.array([self.real() for _ in range(int(np.prod(n)))]).reshape(n)
        if k == "const":
            return t[1]
        if k == "fun":
            return self.fun(t)
        if k == "made":
            args = {a: self.make(x) for a, x in t[2].items()}
            o = self.mod[t[1]](**copy.deepcopy(args))
            D.RT.ghosts.append((o, args))
            return o
        if k == "obj":
            m, c = t[1].split(":")
            cls = getattr(importlib.import_module(PKG + "." + m), c)
            args = {a: self.make(x) for a, x in t[2].items()}
            try:
                o = cls(**copy.deepcopy(args))
            except D.Skip:
                raise
            except Exception:
                raise D.Skip()
            D.RT.ghosts.append((o, args))
            return o
        raise TypeError(k)

    def sub(self):
        return self

    def fun(self, t):
        salt = self.rng.random()
        res = t[2]

        def f(*a):
            g = Gen(random.Random(repr((salt, a))), self.size, self.ints, self.floats)
            return g.make(res)
        return f


def show(v, depth=0):
    import numpy as np
    if isinstance(v, (bool, int, float, str, type(None))):
        return repr(v)
    if isinstance(v, np.ndarray):
        return "np.array(%s)" % v.tolist()
    if isinstance(v, list):
        return "[" + ", ".join(show(x, depth + 1) for x in v[:200]) + "]"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in v[:200]) + ",)"
    if isinstance(v, (dict, set)):
        return repr(v)[:2000]
    for o, args in D.RT.ghosts:
        if o is v:
            return type(v).__name__ + "(" + ", ".join(k + "=" + show(x) for k, x in args.items()) + ")"
    return "<%s>" % type(v).__name__


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bool, int, float, str, set, type(None))):
        return a == b or a != a
    return True


def target_of(l):
    m, f = l["qual"].split(":")
    o = importlib.import_module(PKG + "." + m)
    for p in f.split("."):
        o = getattr(o, p)
    return o


def interface_gone(x):
    """a private name or signature that the contract is anchored at does not exist any more: the code may be right (renamed, split,
    inlined), so this is no failing input"""
    m = str(x)
    if isinstance(x, (AttributeError, ImportError)) and re.search(r"(attribute|import name|named) '_[a-zA-Z]\w*", m):
        return True
    if isinstance(x, TypeError) and re.search(r"positional argument|keyword argument|required .*argument", m):
        tb = x.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        f = tb.tb_frame.f_code
        return "/contracts/" in f.co_filename or "/rt/" in f.co_filename
    return False


def run_case(l, seed, it, ints, floats):
    """-> (outcome, message, args shown).  outcome: ok, skip, fail"""
    rng = random.Random("%s/%s/%s" % (seed, l["name"], it))
    import numpy as np
    np.random.seed(rng.randrange(1 << 31))
    random.seed(rng.randrange(1 << 31))
    cap = l.get("max_size", 24)
    size = min(cap, 1 + it // 12) if it < 12 * cap else rng.randint(1, cap)
    if rng.random() < 0.05:
        size = cap
    g = Gen(rng, size, ints, floats)
    g.mod = l['f'].__globals__
    D.RT.ghosts = []
    args = {}
    shown = "(not generated)"
    try:
        names = l["f"].__code__.co_varnames[:l["f"].__code__.co_argcount]
        for p in names:
            args[p] = l["gen"][p](g) if p in l["gen"] else g.make(l["types"][p])
            g.args[p] = args[p]
        keep = {k: (copy.deepcopy(v) if isinstance(v, (list, tuple, dict, set, np.ndarray, int, float, str)) else None)
                for k, v in args.items() if not hasattr(v, "__next__")}
        if l["kind"] == "contract":
            D.RT.target = target_of(l)
    except D.Skip:
        return "skip", "", ""
    except Exception as x:
        w = "gone" if interface_gone(x) else "fail"
        return w, "while building the input: %s: %s\n%s" % (type(x).__name__, x, traceback.format_exc(limit=-6)), shown
    out = sys.stdout
    try:
        sys.stdout = io.StringIO()
        shown = {k: show(v) for k, v in args.items()}
        l["f"](**args)
        if l.get("pure", True):
            for k, v in keep.items():
                if v is not None and not same(v, args[k]):
                    return "fail", "argument %s was modified by the call (now %s)" % (k, show(args[k])[:300]), shown
        return "ok", "", shown
    except D.Skip:
        return "skip", "", ""
    except D.Failed as x:
        return "fail", "postcondition does not hold: %s" % x, shown
    except Exception as x:
        if interface_gone(x):
            return "gone", "contract does not fit the code any more: %s: %s\n%s" % (type(x).__name__, x, traceback.format_exc(limit=-6)), shown
        return "fail", "unexpected %s: %s\n%s" % (type(x).__name__, x, traceback.format_exc(limit=-6)), shown
    finally:
        sys.stdout = out


def load_contracts(only=None):
    errs = []
    if ROOT not in sys.path:
        sys.path.append(ROOT)
    for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "*.py"))):
        if os.path.basename(f).startswith("_"):
            continue
        if only and only not in open(f).read():
            continue
        try:
            importlib.import_module("contracts." + os.path.basename(f)[:-3])
        except Exception as x:
            errs.append((os.path.basename(f), "%s: %s" % (type(x).__name__, x), traceback.format_exc(limit=-4)))
    return errs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--lemma")
    ap.add_argument("--seconds", type=float, default=30)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--maxfail", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--replay")
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.prop = rep["property"]
    errs = load_contracts('"%s"' % a.prop if a.prop else None)
    todo = [l for l in D.RT.lemmas if (not a.prop or a.prop in l["props"]) and (not a.lemma or l["name"] == a.lemma)
            and l.get("concrete", True)]
    files = set()
    for n, m in list(sys.modules.items()):
        if n.startswith(PKG) and getattr(m, "__file__", None):
            files.add(m.__file__)
    ints, floats = source_constants(files)
    if rep:
        for l in todo:
            if l["name"] == rep.get("lemma"):
                o, msg, shown = run_case(l, rep["seed"], rep["iteration"], ints, floats)
                print(o, msg)
                if isinstance(shown, dict):
                    for k, v in shown.items():
                        print("  ", k, "=", v)
        return
    sh, nsh = map(int, a.shard.split("/"))
    res = {l["name"]: dict(evaluations=0, skipped=0, checks=0, samples=[], distinct=0, seconds=0.0, proved=l.get("symbolic", True))
           for l in todo}
    gone = []
    fails, t_end = [], time.time() + a.seconds
    it = {l["name"]: sh for l in todo}
    live = list(todo)
    seen = {l["name"]: set() for l in todo}
    # round robin by time spent, so that slow contracts do not starve the others
    while live and time.time() < t_end:
        l = min(live, key=lambda l: res[l["name"]]["seconds"] / l.get("weight", 1))
        n = l["name"]
        t0 = time.time()
        c0 = D.RT.checks
        o, msg, shown = run_case(l, a.seed, it[n], ints, floats)
        r = res[n]
        r["seconds"] += time.time() - t0
        if o == "skip":
            r["skipped"] += 1
        else:
            r["evaluations"] += 1
            r["checks"] += D.RT.checks - c0
            h = hash(repr(shown))
            if h not in seen[n]:
                seen[n].add(h)
                r["distinct"] += 1
            if len(r["samples"]) < 2 and r["distinct"] % 17 == 3:
                r["samples"].append({k: v[:300] for k, v in shown.items()} if isinstance(shown, dict) else shown)
        if o == "gone":
            gone.append((n, msg))
            live.remove(l)
        if o == "fail":
            fails.append(dict(lemma=n, file=os.path.basename(l["file"]), seed=a.seed, iteration=it[n], message=msg, args=shown))
            live.remove(l)
            if len(fails) >= a.maxfail:
                break
        it[n] += nsh
        if it[n] >= l.get("max_cases", 10 ** 9):
            if l in live:
                live.remove(l)
    out = dict(results=res, fails=fails, gone=gone, import_errors=errs, never=[n for n, r in res.items() if not r["evaluations"]])
    if a.out:
        json.dump(out, open(a.out, "w"))
    else:
        for n, r in res.items():
            print(n, {k: v for k, v in r.items() if k != "samples"})
        for e in errs:
            print("IMPORT ERROR", *e)
        for f in fails:
            print("FAIL", f["lemma"], f["iteration"], f["message"])
            if isinstance(f["args"], dict):
                for k, v in f["args"].items():
                    print("  ", k, "=", v[:1000])


if __name__ == "__main__":
    main()
