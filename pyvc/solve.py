"""Discharging obligations: z3 portfolio over (hypotheses, negated goal) with explicit instances of the finite-sum /
power / cardinality lemmas of theory.py.  Every answer used is `unsat` from z3."""
import multiprocessing as mp
import os
import re
import sys
import time
import z3
from . import theory as T
from .engine import has_quant

_sk = [0]


def skc(sort, hint="g"):
    _sk[0] += 1
    return z3.Const(f"{hint}$${_sk[0]}", sort)


def strip_goal(goal, hyps):
    """skolemise the negated goal: returns list of ground-ish hypotheses and the residual goal"""
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [skc(goal.var_sort(i), "g") for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal):
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_or(goal) and any(z3.is_quantifier(c) or z3.is_not(c) for c in goal.children()):
            ch = goal.children()
            rest = []
            for c in ch:
                if z3.is_not(c):
                    hyps.append(c.arg(0))
                else:
                    rest.append(c)
            if len(rest) == len(ch):
                i = next(i for i, c in enumerate(ch) if z3.is_quantifier(c))
                if len([c for c in ch if z3.is_quantifier(c) and c.is_forall()]) == 0:
                    return goal
                i = next(i for i, c in enumerate(ch) if z3.is_quantifier(c) and c.is_forall())
                q = ch[i]
                vs = [skc(q.var_sort(k), "g") for k in range(q.num_vars())]
                ch[i] = z3.substitute_vars(q.body(), *reversed(vs))
                goal = z3.Or(*ch)
                continue
            goal = z3.Or(*rest) if len(rest) > 1 else rest[0] if rest else z3.BoolVal(False)
        elif z3.is_not(goal) and z3.is_quantifier(goal.arg(0)) and goal.arg(0).is_exists():
            q = goal.arg(0)
            vs = [skc(q.var_sort(k), "g") for k in range(q.num_vars())]
            hyps.append(z3.substitute_vars(q.body(), *reversed(vs)))
            return z3.BoolVal(False)
        else:
            return goal


def goals_of(goal, hyps):
    """split a goal into conjuncts after stripping; returns [(goal, extra hyps)]"""
    ex = []
    g = strip_goal(goal, ex)
    if z3.is_and(g):
        out = []
        for c in g.children():
            for g2, e2 in goals_of(c, hyps):
                out.append((g2, ex + e2))
        return out
    if z3.is_eq(g) and g.arg(0).sort() == z3.BoolSort() and (has_quant(g.arg(0)) or has_quant(g.arg(1))):
        a, b = g.arg(0), g.arg(1)
        out = []
        for x, y in ((a, b), (b, a)):
            for g2, e2 in goals_of(z3.Implies(x, y), hyps):
                out.append((g2, ex + e2))
        return out
    return [(g, ex)]


def nested_forall(b):
    """implications ending in a universal quantifier"""
    while z3.is_implies(b):
        b = b.arg(1)
    return z3.is_quantifier(b) and b.is_forall()


def flatten_hyp(h, out):
    if z3.is_and(h):
        for c in h.children():
            flatten_hyp(c, out)
    elif z3.is_quantifier(h) and h.is_exists():
        vs = [skc(h.var_sort(k), "h") for k in range(h.num_vars())]
        flatten_hyp(z3.substitute_vars(h.body(), *reversed(vs)), out)
    elif z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_forall():
        q = h.arg(0)
        vs = [skc(q.var_sort(k), "h") for k in range(q.num_vars())]
        flatten_hyp(z3.Not(z3.substitute_vars(q.body(), *reversed(vs))), out)
    elif z3.is_not(h) and z3.is_implies(h.arg(0)):
        flatten_hyp(h.arg(0).arg(0), out)
        flatten_hyp(z3.Not(h.arg(0).arg(1)), out)
    elif z3.is_not(h) and z3.is_or(h.arg(0)):
        for c in h.arg(0).children():
            flatten_hyp(z3.Not(c), out)
    elif z3.is_not(h) and z3.is_not(h.arg(0)):
        flatten_hyp(h.arg(0).arg(0), out)
    elif z3.is_quantifier(h) and h.is_forall() and nested_forall(h.body()):
        vs = [skc(h.var_sort(k), "v") for k in range(h.num_vars())]
        conds, b = [], z3.substitute_vars(h.body(), *reversed(vs))
        while True:
            if z3.is_implies(b):
                conds.append(b.arg(0))
                b = b.arg(1)
            elif z3.is_quantifier(b) and b.is_forall():
                ws = [skc(b.var_sort(k), "v") for k in range(b.num_vars())]
                vs += ws
                b = z3.substitute_vars(b.body(), *reversed(ws))
            else:
                break
        for c in (b.children() if z3.is_and(b) else [b]):
            flatten_hyp(z3.ForAll(vs, z3.Implies(z3.And(*conds), c) if conds else c), out)
    elif z3.is_quantifier(h) and h.is_forall() and z3.is_and(h.body()):
        vs = [skc(h.var_sort(k), "v") for k in range(h.num_vars())]
        b = z3.substitute_vars(h.body(), *reversed(vs))
        for c in b.children():
            flatten_hyp(z3.ForAll(vs, c), out)
    else:
        out.append(h)


# ---------------------------------------------------------------- our own instantiation
BUILTIN_OK = (z3.Z3_OP_UNINTERPRETED,)


def ground_terms(exprs):
    """all closed subterms (no de Bruijn variables), also those below quantifiers/lambdas"""
    seen, fvc, out, keep = set(), {}, {}, []

    def fv(e):
        k = e.get_id()
        if k in fvc:
            return fvc[k]
        if z3.is_var(e):
            r = z3.get_var_index(e) + 1
        elif z3.is_quantifier(e):
            r = max(0, fv(e.body()) - e.num_vars())
        else:
            r = 0
            for c in e.children():
                r = max(r, fv(c))
        fvc[k] = r
        return r
    st = list(exprs)
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        keep.append(e)
        if z3.is_quantifier(e):
            b = e.body()
            keep.append(b)
            st.append(b)
            continue
        if fv(e) == 0 and z3.is_app(e):
            out[k] = e
        st.extend(e.children())
    return out, keep


def pattern_of(q):
    """uninterpreted applications in the body covering all variables"""
    n = q.num_vars()
    if q.num_patterns() > 0:
        return [[p.arg(i) for i in range(p.num_args())] for p in [q.pattern(i) for i in range(q.num_patterns())]]
    cands = []
    seen = set()

    def vars_in(e, acc, seen2):
        if e.get_id() in seen2:
            return
        seen2.add(e.get_id())
        if z3.is_var(e):
            acc.add(z3.get_var_index(e))
        elif z3.is_quantifier(e):
            acc.add(-1)
        else:
            for c in e.children():
                vars_in(c, acc, seen2)

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return
        if z3.is_app(e):
            if e.decl().kind() in BUILTIN_OK and e.num_args() > 0 and e.decl().name() not in T.SUMS:
                acc = set()
                vars_in(e, acc, set())
                if -1 not in acc and acc and simple_args(e):
                    cands.append((e, frozenset(acc)))
            for c in e.children():
                walk(c)
    walk(q.body())
    full = frozenset(range(n))
    singles = [[e] for e, a in cands if a == full]
    if singles:
        return singles[:6]
    # pairs
    out = []
    for i, (e, a) in enumerate(cands):
        for f, b in cands[i + 1:]:
            if a | b == full:
                out.append([e, f])
    return out[:4]


def simple_args(e):
    """arguments are variables, closed terms or nested simple applications (matchable)"""
    for c in e.children():
        if z3.is_var(c):
            continue
        if z3.is_app(c) and (c.num_args() == 0 or c.decl().kind() in BUILTIN_OK and simple_args(c)):
            continue
        if z3.is_app(c) and no_vars(c):
            continue
        return False
    return True


def no_vars(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x) or z3.is_quantifier(x):
            return False
        st.extend(x.children())
    return True


def match(p, t, sub):
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in sub:
            return sub[i].eq(t)
        if p.sort() != t.sort():
            return False
        sub[i] = t
        return True
    if not z3.is_app(p) or not z3.is_app(t):
        return p.eq(t)
    if p.num_args() == 0:
        return p.eq(t)
    if not p.decl().eq(t.decl()) or p.num_args() != t.num_args():
        return False
    for a, b in zip(p.children(), t.children()):
        if not match(a, b, sub):
            return False
    return True


def instantiate(quants, terms, limit=300, done=None):
    byname = {}
    for t in terms.values():
        if t.num_args() > 0 and t.decl().kind() in BUILTIN_OK:
            byname.setdefault(t.decl().name(), []).append(t)
    out = []
    done = set() if done is None else done
    for q in quants:
        n = q.num_vars()
        cnt = 0
        for pat in pattern_of(q):
            subs = [{}]
            for p in pat:
                ns = []
                if not z3.is_app(p):
                    continue
                for t in byname.get(p.decl().name(), []):
                    for s in subs:
                        s2 = dict(s)
                        if match(p, t, s2):
                            ns.append(s2)
                            if len(ns) > 200:
                                break
                subs = ns
            for s in subs:
                if len(s) != n:
                    continue
                key = (q.get_id(), tuple(s[i].get_id() for i in range(n)))
                if key in done:
                    continue
                done.add(key)
                inst = z3.substitute_vars(q.body(), *[s[i] for i in range(n)])
                out.append(inst)
                cnt += 1
                if cnt > 40:
                    break
            if cnt > 40:
                break
        if len(out) > limit:
            break
    return out


def prepare(hyps, goal, rounds=2, level=1, perms=None, wits=None, enums=None):
    """ground facts relevant to the goal + quantified hypotheses"""
    hs = []
    for h in hyps:
        flatten_hyp(h, hs)
    hs.append(z3.Not(goal))
    quants = [h for h in hs if z3.is_quantifier(h) and h.is_forall()]
    ground = [h for h in hs if not (z3.is_quantifier(h) and h.is_forall())]
    done = set()
    g = list(ground)
    lem_seen = set()
    for r in range(rounds):
        terms, keep = ground_terms(g)
        ins = instantiate(quants, terms, done=done)
        flat = []
        for i in ins:
            flatten_hyp(i, flat)
        for f in flat:
            if z3.is_quantifier(f) and f.is_forall():
                quants.append(f)
            else:
                g.append(f)
        lem = T.ground_lemmas(g, level=level, seen=lem_seen, perms=perms, wits=wits, enums=enums)
        if not ins and not lem:
            break
        g += lem
    return g, quants


PORTFOLIO = ({}, {"random_seed": 2}, {"smt.mbqi": False, "random_seed": 1}, {"smt.arith.solver": 2, "random_seed": 3})


def run(fs, ms, want_model=False, opts=({},)):
    """z3 in forked processes, one per option set (z3 does not always honour its own time limit, and its search is sensitive to the
    order in which terms were made): first unsat wins; returns (answer, seconds, model text)"""
    import select
    import signal
    t0 = time.time()
    live, best = {}, ("unknown", "")
    for o in opts:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                s = z3.Solver()
                s.set("timeout", int(ms))
                for k, v in o.items():
                    s.set(k, v)
                for f in fs:
                    s.add(f)
                try:
                    a = str(s.check())
                except z3.Z3Exception:
                    a = "unknown"
                m = ""
                if a == "sat" and want_model:
                    m = str(s.model())[:1500]
                os.write(w, (a + "\n" + m).encode()[:4000])
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        live[r] = pid
    end = t0 + ms / 1000.0 * 1.3 + 0.3
    while live and time.time() < end:
        rs, _, _ = select.select(list(live), [], [], max(0.0, end - time.time()))
        if not rs:
            break
        for r in rs:
            data = os.read(r, 5000).decode()
            pid = live.pop(r)
            os.close(r)
            reap(pid)
            a, _, m = data.partition("\n")
            if a == "unsat" or a == "sat" and best[0] == "unknown":
                best = (a, m)
        if best[0] == "unsat":
            break
    for r, pid in live.items():
        os.close(r)
        reap(pid)
    return best[0], time.time() - t0, best[1]


def reap(pid):
    import signal
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)


CARDS = {"CardI", "CardR", "CardS"}


def is_app_of(t, names):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names


def card_ext(hyps, goal, budget, ob):
    """x == Card(A) where a hypothesis (or an instance of one) says x == Card(B): prove A and B have the same members"""
    if not z3.is_eq(goal):
        return False
    for x, c in ((goal.arg(0), goal.arg(1)), (goal.arg(1), goal.arg(0))):
        if not is_app_of(c, CARDS):
            continue
        cands = [x] if is_app_of(x, CARDS) else []
        for h in hyps:
            q = h
            n = 0
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort():
                q, n = h.body(), 1
            conc = q.arg(1) if z3.is_implies(q) else q
            if not z3.is_eq(conc):
                continue
            for l, r in ((conc.arg(0), conc.arg(1)), (conc.arg(1), conc.arg(0))):
                if not (is_app_of(r, CARDS) and r.decl().eq(c.decl())):
                    continue
                sub = {}
                if match(l, x, sub):
                    inst = z3.substitute_vars(q, *[sub[0]]) if n and 0 in sub else q
                elif n and is_app_of(l, {x.decl().name()} if z3.is_app(x) else set()) and l.num_args() == 1 and z3.is_app(x) and x.num_args() == 1:
                    inst = z3.substitute_vars(q, x.arg(0))
                else:
                    continue
                if z3.is_implies(inst):
                    if not discharge(hyps, inst.arg(0), 3, ob.perms, ob.wits, ob.enums)[0]:
                        continue
                    inst = inst.arg(1)
                cands.append(inst.arg(1) if inst.arg(1).decl().eq(c.decl()) else inst.arg(0))
        for d in cands[:3]:
            k = skc(c.arg(0).sort().domain(), "g")
            A, B = T.sel(c.arg(0), k), T.sel(d.arg(0), k)
            extra = sum_ext(hyps, [A, B], budget, ob)
            if all(discharge(hyps + extra + [u], v, budget, ob.perms, ob.wits, ob.enums)[0] for u, v in ((A, B), (B, A))):
                return True
    return False


def sum_ext(hyps, terms, budget, ob):
    """equalities between the closed sums of the terms that hold term by term"""
    out = []
    ss = T.collect(terms, T.SUMS)
    for i, s in enumerate(ss):
        for u in ss[i + 1:]:
            if not s.decl().eq(u.decl()) or len(ss) > 4:
                continue
            k = skc(z3.IntSort(), "g")
            n, m = s.arg(1), u.arg(1)
            if not n.eq(m) and not discharge(hyps, n == m, 2, ob.perms, ob.wits, ob.enums)[0]:
                continue
            h2 = hyps + [0 <= k, k < n]
            a, b = T.sel(s.arg(0), k), T.sel(u.arg(0), k)
            ok = True
            for x, gl in cases(a, b):
                if not discharge(h2 + x, gl, 4, ob.perms, ob.wits, ob.enums)[0]:
                    ok = False
                    break
            if ok:
                out.append(s == u)
    return out


def cases(a, b):
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        return [([a.arg(0)], a.arg(1) == b), ([z3.Not(a.arg(0))], a.arg(2) == b)]
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        return cases(b, a)
    return [([], a == b)]


def discharge_one(ob, budget=20.0):
    """returns (status, how, time, info)"""
    t0 = time.time()
    hows = []
    parts = goals_of(ob.goal, ob.hyps)
    for g, ex in parts:
        hyps = list(ob.hyps) + ex
        if card_ext(hyps, g, budget, ob):
            hows.append("card-ext")
            continue
        ok, how, info = discharge(hyps, g, budget, ob.perms, ob.wits, ob.enums)
        hows.append(how)
        if not ok:
            return "unknown", how, time.time() - t0, info + f"\nsubgoal: {str(g)[:600]}"
    return "unsat", "+".join(sorted(set(hows))), time.time() - t0, ""


def symbols(e):
    """(uninterpreted symbols, number of distinct nodes)"""
    seen, st, out = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in T.SUMS | {"CardI", "CardR", "CardS"}:
                out.add(x.decl().name())
            st.extend(x.children())
    return out, len(seen)


def relevant(hyps, goal):
    """hypotheses that share a rare symbol with the goal, plus the small ones"""
    syms = [symbols(h) for h in hyps]
    freq = {}
    for ss, _ in syms:
        for n in ss:
            freq[n] = freq.get(n, 0) + 1
    gs = {n for n in symbols(goal)[0] if freq.get(n, 0) <= max(3, 0.25 * len(hyps))}
    return [h for h, (ss, sz) in zip(hyps, syms) if ss & gs or sz < 22]


def abstracted(es):
    """generalises formulas: closed sums and cardinalities become constants, string concatenation an arbitrary function.
    What is valid for every such constant and function is valid for the real ones."""
    memo, consts = {}, {}
    heads = T.SUMS | {"CardI", "CardR", "CardS"}
    cat = z3.Function("cat!", z3.StringSort(), z3.StringSort(), z3.StringSort())

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(x):
            vs = [z3.FreshConst(x.var_sort(i), "ab") for i in range(x.num_vars())]
            b = go(z3.substitute_vars(x.body(), *reversed(vs)))
            r = z3.Lambda(vs, b) if x.is_lambda() else z3.ForAll(vs, b) if x.is_forall() else z3.Exists(vs, b)
        elif z3.is_app(x) and x.num_args():
            if x.decl().name() in heads and no_free(x):
                for y, c in consts.values():
                    if y.eq(x):
                        r = c
                        break
                else:
                    r = z3.FreshConst(x.sort(), "abs")
                    consts[k] = (x, r)
            else:
                ch = [go(c) for c in x.children()]
                if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT and x.sort() == z3.StringSort():
                    r = ch[-1]
                    for c in reversed(ch[:-1]):
                        r = cat(c, r)
                else:
                    r = x.decl()(*ch)
        else:
            r = x
        memo[k] = (x, r)
        return r

    def no_free(x):
        st, seen = [x], set()
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.decl().name().startswith("ab!"):
                return False
            st.extend([y.body()] if z3.is_quantifier(y) else y.children())
        return True
    return [go(x) for x in es], bool(consts)


def abstract_proof(hyps, ng):
    """strings as an uninterpreted sort (their literals arbitrary elements of it): equality reasoning without the string solver"""
    if not any(mentions_strings(f) for f in hyps + [ng]):
        return False
    s = z3.Solver()
    s.add(*abstracted(hyps + [ng])[0])
    txt = re.sub(r"\bString\b", "Strx", s.sexpr())
    lits = sorted(set(re.findall(r'"(?:[^"]|"")*"', txt)), key=lambda x: -len(x))
    for i, l in enumerate(lits):
        txt = txt.replace(l, f"lit!!{i}")
    txt = "(declare-sort Strx 0)\n" + "".join(f"(declare-const lit!!{i} Strx)\n" for i in range(len(lits))) + txt
    try:
        fs = z3.parse_smt2_string(txt)
    except z3.Z3Exception:
        return False
    r, t, mod = run(list(fs), 1000, opts=PORTFOLIO[:3])
    return r == "unsat"


def mentions_strings(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == z3.StringSort():
            return True
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


def discharge(hyps, goal, budget, perms, wits, enums):
    ng = z3.Not(goal)
    if abstract_proof(hyps, ng):
        return True, "z3+abstraction", ""
    r, t, mod = run(hyps + [ng], 400, want_model=True)
    if r == "unsat":
        return True, "z3", ""
    model = ""
    if r == "sat" and not any(has_quant(h) for h in hyps + [ng]):
        names = T.SUMS | {"Pow", "PowI", "PowR", "Sqrt", "Exp", "Log", "CardI", "CardR", "CardS"}
        if not T.collect(hyps + [ng], names):
            return False, "sat", "counter-model: " + mod
    preps = {}
    rel = relevant(hyps, goal)
    if len(rel) < 0.7 * len(hyps):
        for cfg in ((1, 1), (1, 2)):
            g, q = prepare(rel, goal, rounds=cfg[1], level=cfg[0], perms=perms, wits=wits, enums=enums)
            r, t, s = run(g + q + T.sum_axioms(), 1000, opts=PORTFOLIO[:3])
            if r == "unsat":
                return True, f"z3+relevant{cfg[0]}{cfg[1]}", ""
    for ms in (700, 250 * budget):
        if ms > 700:
            r, t, mod = run(hyps + [ng], ms / 2, opts=PORTFOLIO[1:])
            if r == "unsat":
                return True, "z3", ""
        for cfg in ((1, 1), (1, 2), (2, 2)):
            if cfg not in preps:
                preps[cfg] = prepare(hyps, goal, rounds=cfg[1], level=cfg[0], perms=perms, wits=wits, enums=enums)
            g, q = preps[cfg]
            tag = f"z3+lemmas{cfg[0]}{cfg[1]}"
            r, t, s = run(g, ms, opts=PORTFOLIO[:2])
            if r == "unsat":
                return True, tag, ""
            r, t, s = run(g + q + T.sum_axioms(), ms, opts=PORTFOLIO)
            if r == "unsat":
                return True, tag + "q", ""
    return False, "timeout", "no proof found within budget"


def pure_real(fs):
    return False


# ---------------------------------------------------------------- parallel driver
_OBS = None


def _work(i):
    ob = _OBS[i]
    try:
        st, how, t, info = discharge_one(ob, _BUD)
    except z3.Z3Exception as e:
        st, how, t, info = "unknown", "error", 0.0, str(e)
    except RecursionError as e:
        st, how, t, info = "unknown", "error", 0.0, "recursion"
    return i, st, how, t, info


_BUD = 20.0


def _child(i, w):
    import pickle
    r = _work(i)
    with os.fdopen(w, "wb") as f:
        pickle.dump(r, f)


def solve_all(obs, procs=8, budget=20.0, maxfail=0):
    """one forked process per obligation, killed at its deadline"""
    import pickle
    import select
    import signal
    global _OBS, _BUD
    _OBS, _BUD = obs, budget
    todo = list(range(len(obs)))
    live = {}
    sys.stdout.flush()
    while todo or live:
        if todo and maxfail and sum(1 for o in obs if o.status not in (None, "unsat")) >= maxfail:
            for i in todo:
                obs[i].status, obs[i].solver, obs[i].time, obs[i].model = "unknown", "skipped", 0.0, f"not attempted: {maxfail} others failed"
            todo = []
            if not live:
                break
        while todo and len(live) < procs:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    _child(i, w)
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (i, pid, time.time())
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for r in rs:
            i, pid, t0 = live.pop(r)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                _, st, how, t, info = pickle.loads(data)
            except Exception:
                st, how, t, info = "unknown", "crash", time.time() - t0, "solver process died"
            obs[i].status, obs[i].solver, obs[i].time, obs[i].model = st, how, t, info
        now = time.time()
        for r, (i, pid, t0) in list(live.items()):
            if now - t0 > 2.2 * budget + 5:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                obs[i].status, obs[i].solver, obs[i].time, obs[i].model = "unknown", "killed", now - t0, "deadline"
