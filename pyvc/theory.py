"""Mathematical theory symbols and their axioms (trusted base: definitions of finite sum, cardinality, power)."""
import z3
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
SumI = z3.Function("SumI", AI, I, I)      # SumI(a, n) = a[0] + ... + a[n-1]
SumR = z3.Function("SumR", AR, I, R)
ProdR = z3.Function("ProdR", AR, I, R)
CardI = z3.Function("CardI", z3.ArraySort(I, B), I)   # cardinality of a finite set of ints
CardR = z3.Function("CardR", z3.ArraySort(R, B), I)
CardS = z3.Function("CardS", z3.ArraySort(z3.StringSort(), B), I)
Pow = z3.Function("Pow", R, I, R)
PowI = z3.Function("PowI", I, I, I)       # c ** t for a constant c >= 2
PowR = z3.Function("PowR", R, R, R)
Sqrt = z3.Function("Sqrt", R, R)
Exp = z3.Function("Exp", R, R)
Log = z3.Function("Log", R, R)
SUMS = {"SumI", "SumR", "ProdR"}


def collect(exprs, names):
    """All applications of the given function names without free de Bruijn variables."""
    seen, out = set(), {}
    hasvar = {}

    def fv(e):
        # max free de Bruijn index + 1 (0 = closed)
        k = e.get_id()
        if k in hasvar:
            return hasvar[k]
        if z3.is_var(e):
            r = z3.get_var_index(e) + 1
        elif z3.is_quantifier(e):
            r = max(0, fv(e.body()) - e.num_vars())
        else:
            r = 0
            for c in e.children():
                r = max(r, fv(c))
        hasvar[k] = r
        return r
    stack = list(exprs)
    keep = list(exprs)
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            if e.decl().name() in names and fv(e) == 0:
                out[k] = e
            stack.extend(e.children())
    return list(out.values())


_cnt = [0]


def skol(hint="sk"):
    _cnt[0] += 1
    return z3.Int(f"{hint}!!{_cnt[0]}")


def sel(a, i):
    if z3.is_quantifier(a) and a.is_lambda():
        return z3.substitute_vars(a.body(), i)
    return z3.Select(a, i)


def sum_axioms():
    """Quantified facts about finite sums, with terminating triggers."""
    ax = []
    for F, AS, zero in ((SumI, AI, z3.IntVal(0)), (SumR, AR, z3.RealVal(0))):
        a = z3.Const("a", AS)
        n, m = z3.Ints("n m")
        ax.append(z3.ForAll([a, n], z3.Implies(n <= 0, F(a, n) == zero), patterns=[F(a, n)]))
        ax.append(z3.ForAll([a, n, m], z3.Implies(z3.And(n == m + 1, m >= 0), F(a, n) == F(a, m) + a[m]),
                            patterns=[z3.MultiPattern(F(a, n), F(a, m))]))
    return ax


def apps_of(t, names):
    """applications (possibly containing free constants) of the given uninterpreted functions"""
    out, seen, st = {}, set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
            continue
        if z3.is_app(e) and e.decl().name() in names and e.num_args() > 0:
            out[e.get_id()] = e
        st.extend(e.children())
    return list(out.values())


def skolems(exprs):
    out, seen, st = {}, set(), list(exprs)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and ("$$" in e.decl().name()):
            out[e.get_id()] = e
        st.extend(e.children())
    return list(out.values())[:12]


def occurs_const(t, c):
    st, seen = [t], set()
    i = c.get_id()
    while st:
        e = st.pop()
        if e.get_id() == i:
            return True
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        st.extend([e.body()] if z3.is_quantifier(e) else e.children())
    return False


def perm_lemmas(sums, perms, level, exprs, new):
    """Sum_{j<n} f(perm(j)) = Sum_{j<n} f(j) for a permutation of [0,n)"""
    out = []
    if not perms:
        return out
    for s in sums:
        if s.decl().name() == "ProdR" or not new("perm", level, s):
            continue
        a, n = s.arg(0), s.arg(1)
        if not (z3.is_quantifier(a) and a.is_lambda()):
            continue
        J = z3.Int(f"pj!!{s.get_id()}")
        body = z3.substitute_vars(a.body(), J)
        ps = [p for p in apps_of(body, perms) if p.arg(p.num_args() - 1).eq(J)]
        if ps:
            H = z3.Int(f"ph!!{s.get_id()}")
            decls = {p.decl().name() for p in ps}
            if len(ps) == 1:
                p = ps[0]
                b2 = z3.substitute(body, (p, H))
                if not occurs_const(b2, J):
                    bs, ln = perms[p.decl().name()]
                    if bs:
                        ln = z3.substitute(ln, *[(x, y) for x, y in zip(bs, p.children()[:-1])])
                    out.append(z3.Implies(n == ln, s == s.decl()(z3.Lambda([H], b2), n)))
        elif level >= 2:
            for p in collect(exprs, set(perms)):
                bs, ln = perms[p.decl().name()]
                args = p.children()[:-1]
                if not new("permr", s, p.decl().name(), *args):
                    continue
                if bs:
                    ln = z3.substitute(ln, *[(x, y) for x, y in zip(bs, args)])
                b2 = z3.substitute(body, (J, p.decl()(*args, J)))
                out.append(z3.Implies(n == ln, s == s.decl()(z3.Lambda([J], b2), n)))
    return out


def enum_lemmas(sums, enums, new):
    """counting over an enumeration of a finite set = cardinality of the subset"""
    out = []
    for s in sums:
        if s.decl().name() != "SumI" or not enums or not new("enum", s):
            continue
        a, n = s.arg(0), s.arg(1)
        if not (z3.is_quantifier(a) and a.is_lambda()):
            continue
        J = z3.Int(f"ej!!{s.get_id()}")
        body = z3.substitute_vars(a.body(), J)
        ks = [p for p in apps_of(body, enums) if p.arg(p.num_args() - 1).eq(J)]
        if len(ks) != 1:
            continue
        p = ks[0]
        kx, dom, px, pos, args, card = enums[p.decl().name()]
        sb = [(x, y) for x, y in zip(args, p.children()[:-1])]
        K = z3.Const(f"ek!!{s.get_id()}", p.sort())
        b2 = z3.substitute(body, (p, K))
        if occurs_const(b2, J):
            continue
        if sb:
            dom, card = z3.substitute(dom, *sb), z3.substitute(card, *sb)
        inset = z3.And(z3.substitute(dom, (kx, K)), b2 == 1)
        C = {z3.IntSort(): CardI, z3.RealSort(): CardR}.get(p.sort(), CardS)
        w = z3.Const(f"ew!!{s.get_id()}", p.sort())
        bw = z3.substitute(b2, (K, w))
        out.append(z3.Or(n != card, s == C(z3.Lambda([K], inset)),
                         z3.And(z3.substitute(dom, (kx, w)), bw != 0, bw != 1)))
    return out


def skolk(sort):
    _cnt[0] += 1
    return z3.Const(f"ck!!{_cnt[0]}", sort)


def card_lemmas(exprs, level, new):
    out = []
    cs = collect(exprs, {"CardI", "CardR", "CardS"})
    for c in cs:
        if new("c", c):
            a = c.arg(0)
            k = skolk(a.sort().domain())
            out += [c >= 0, z3.Or(sel(a, k), c <= 0)]
    if len(cs) > 12:
        return out
    for i, c in enumerate(cs):
        for d in cs[i + 1:]:
            if c.arg(0).sort() != d.arg(0).sort() or not new("cp", c, d):
                continue
            k = skolk(c.arg(0).sort().domain())
            out.append(z3.Or(c == d, sel(c.arg(0), k) != sel(d.arg(0), k)))
            k = skolk(c.arg(0).sort().domain())
            out.append(z3.Or(c <= d, z3.And(sel(c.arg(0), k), z3.Not(sel(d.arg(0), k)))))
            k = skolk(c.arg(0).sort().domain())
            out.append(z3.Or(d <= c, z3.And(sel(d.arg(0), k), z3.Not(sel(c.arg(0), k)))))
    if len(cs) <= 7:
        for i, c in enumerate(cs):
            for j in range(i + 1, len(cs)):
                d = cs[j]
                for l, u in enumerate(cs):
                    if l in (i, j) or not (c.arg(0).sort() == d.arg(0).sort() == u.arg(0).sort()) or not new("ct", c, d, u):
                        continue
                    k = skolk(c.arg(0).sort().domain())
                    ind = lambda x: z3.If(sel(x.arg(0), k), 1, 0)
                    out.append(z3.Or(c + d == u, ind(c) + ind(d) != ind(u)))
    return out


def cut_lemmas(sums, perms, exprs, new):
    """a 0/1 count is at most c when no term at or beyond c counts, at least c when all below c do"""
    out = []
    cuts = {}
    for p in collect(exprs, set(perms)):
        c = p.arg(p.num_args() - 1)
        cuts[c.get_id()] = c
    cuts = list(cuts.values())[:6]
    for s in sums:
        if s.decl().name() != "SumI":
            continue
        a, n = s.arg(0), s.arg(1)
        for c0 in cuts:
            for c in (c0, c0 + 1):
                if not new("cut", s, c0, c.eq(c0)):
                    continue
                k, k2, k3, k4 = skol(), skol(), skol(), skol()
                ok = z3.And(0 <= c, c <= n)
                out.append(z3.Or(z3.Not(ok), s <= c, z3.And(0 <= k, k < c, sel(a, k) > 1), z3.And(c <= k2, k2 < n, sel(a, k2) > 0)))
                out.append(z3.Or(z3.Not(ok), s >= c, z3.And(0 <= k3, k3 < c, sel(a, k3) < 1), z3.And(c <= k4, k4 < n, sel(a, k4) < 0)))
    return out


def ground_lemmas(exprs, level=1, seen=None, perms=None, wits=None, enums=None):
    """Instances of (proved-by-definition) lemmas about the sum/power terms occurring in exprs."""
    out = []
    seen = set() if seen is None else seen

    def new(*k):
        key = tuple(x.get_id() if isinstance(x, z3.ExprRef) else x for x in k)
        if key in seen:
            return False
        seen.add(key)
        return True
    sums = collect(exprs, SUMS)
    out += perm_lemmas(sums, perms or {}, level, exprs, new)
    if out:
        sums = collect(list(exprs) + out, SUMS)
    out += enum_lemmas(sums, enums or {}, new)
    out += card_lemmas(list(exprs) + out, level, new)
    if level >= 2 and perms:
        out += cut_lemmas(sums, perms, exprs, new)
    if out:
        exprs = list(exprs) + out
        sums = collect(exprs, SUMS)
    if wits:
        consts = skolems(exprs)
        for x, fact in wits:
            for c in consts:
                if c.sort() == x.sort() and new("wit", x, c):
                    out.append(z3.substitute(fact, (x, c)))
    wits_c = [c for c in skolems(exprs) if c.sort() == I][:4] if level >= 2 else []
    for s in sums:
        if not new("s", s):
            continue
        if s.decl().name() == "ProdR":
            a, n = s.arg(0), s.arg(1)
            out.append(z3.Implies(n <= 0, s == 1))
            if z3.is_add(n) and n.num_args() == 2:
                for c, d in ((n.arg(0), n.arg(1)), (n.arg(1), n.arg(0))):
                    if z3.is_int_value(c) and c.as_long() == 1:
                        out.append(z3.Implies(d >= 0, s == s.decl()(a, d) * sel(a, d)))
            continue
        a, n = s.arg(0), s.arg(1)
        k = skol()
        rng = z3.And(0 <= k, k < n)
        e = sel(a, k)
        zero = z3.IntVal(0) if s.sort() == I else z3.RealVal(0)
        # all terms >= 0 (resp. <= 0, == 0) => sum likewise
        out.append(z3.Or(z3.And(rng, e < 0), s >= 0))
        k2 = skol()
        out.append(z3.Or(z3.And(0 <= k2, k2 < n, sel(a, k2) != 0), s == 0))
        if s.sort() == I:
            # every term 1 => sum = n ; every term <= 1 => sum <= n
            k3 = skol()
            out.append(z3.Or(z3.And(0 <= k3, k3 < n, sel(a, k3) > 1), n < 0, s <= n))
            k4 = skol()
            out.append(z3.Or(z3.And(0 <= k4, k4 < n, sel(a, k4) != 1), n < 0, s == n))
        if wits_c:
            for c in wits_c:
                k6 = skol()
                out.append(z3.Or(z3.Not(z3.And(0 <= c, c < n)), s >= sel(a, c), z3.And(0 <= k6, k6 < n, sel(a, k6) < 0)))
        # terms >= 0 with sum < 1: no term is positive
        if s.sort() == I and level >= 1:
            k7, bi = skol(), z3.Int("bi")
            out.append(z3.Or(z3.And(0 <= k7, k7 < n, sel(a, k7) < 0), s >= 1, z3.ForAll([bi], z3.Implies(z3.And(0 <= bi, bi < n), sel(a, bi) <= 0))))
        # step
        out.append(z3.Implies(n <= 0, s == zero))
        # a nonneg sum that is positive has a positive term
        k5 = skol()
        out.append(z3.Or(z3.And(0 <= k5, k5 < n, sel(a, k5) > 0), s <= 0))
        if z3.is_add(n) and n.num_args() == 2:
            F = s.decl()
            for c, d in ((n.arg(0), n.arg(1)), (n.arg(1), n.arg(0))):
                if z3.is_int_value(c) and c.as_long() == 1:
                    out.append(z3.Implies(d >= 0, s == F(a, d) + sel(a, d)))
    P2 = [s for s in sums if s.decl().name() == "ProdR"]
    if level >= 1 and len(P2) <= 14:
        for i, s in enumerate(P2):
            for t in P2[i + 1:]:
                if not new("pp", s, t):
                    continue
                k = skol()
                if s.arg(0).eq(t.arg(0)):
                    for x, y in ((s, t), (t, s)):
                        out.append(z3.Implies(z3.And(x.arg(1) == y.arg(1) + 1, y.arg(1) >= 0), x == y * sel(x.arg(0), y.arg(1))))
                out.append(z3.Or(s.arg(1) != t.arg(1), s == t, z3.And(0 <= k, k < s.arg(1), sel(s.arg(0), k) != sel(t.arg(0), k))))
    S2 = [s for s in sums if s.decl().name() != "ProdR"]
    for s in S2:
        a, n = s.arg(0), s.arg(1)
        for c in point_of(a):
            if new("pt", s, c):
                k = skol()
                out.append(z3.Or(z3.And(0 <= k, k < n, k != c, sel(a, k) != 0), s == z3.If(z3.And(0 <= c, c < n), sel(a, c), sel(a, c) * 0)))
        if reversed_index(a):
            # Sum_{j<m} f(c-1-j) = Sum_{j<c} f(j) - Sum_{j<d} f(j),  d = c - m
            for t in S2:
                if t.sort() != s.sort() or t is s:
                    continue
                if new("rev", s, t):
                    k = skol()
                    out.append(z3.Or(n != t.arg(1), s == t, z3.And(0 <= k, k < n, sel(a, k) != sel(t.arg(0), t.arg(1) - 1 - k))))
                for u in S2:
                    if u is not t and u.sort() == s.sort() and u.arg(0).eq(t.arg(0)) and not u.eq(s) and new("rev3", s, t, u):
                        k = skol()
                        out.append(z3.Or(n != t.arg(1) - u.arg(1), n < 0, u.arg(1) < 0, s == t - u,
                                         z3.And(0 <= k, k < n, sel(a, k) != sel(t.arg(0), t.arg(1) - 1 - k))))
    if level >= 1 and len(S2) <= 14:
        for i, s in enumerate(S2):
            for t in S2[i + 1:]:
                if not new("p", s, t):
                    continue
                if s.sort() != t.sort():
                    if s.sort() == I:
                        si, sr = s, t
                    else:
                        si, sr = t, s
                    k = skol()
                    out.append(z3.Or(si.arg(1) != sr.arg(1), z3.ToReal(si) == sr,
                                     z3.And(0 <= k, k < si.arg(1), z3.ToReal(sel(si.arg(0), k)) != sel(sr.arg(0), k))))
                    continue
                n, m = s.arg(1), t.arg(1)
                k, k2, k3 = skol(), skol(), skol()
                ek, fk = sel(s.arg(0), k), sel(t.arg(0), k)
                if s.arg(0).eq(t.arg(0)):
                    for x, y, nx, ny in ((s, t, n, m), (t, s, m, n)):
                        out.append(z3.Implies(z3.And(nx == ny + 1, ny >= 0), x == y + sel(x.arg(0), ny)))
                # extensionality and monotonicity at equal bounds
                out.append(z3.Or(n != m, s == t, z3.And(0 <= k, k < n, ek != fk)))
                out.append(z3.Or(n != m, s <= t, z3.And(0 <= k2, k2 < n, sel(s.arg(0), k2) > sel(t.arg(0), k2))))
                out.append(z3.Or(n != m, t <= s, z3.And(0 <= k3, k3 < n, sel(s.arg(0), k3) < sel(t.arg(0), k3))))
                # prefix monotonicity: same terms, nonneg beyond
                k4 = skol()
                out.append(z3.Or(n > m, s <= t, z3.And(0 <= k4, k4 < m, z3.If(k4 < n, sel(s.arg(0), k4) > sel(t.arg(0), k4), sel(t.arg(0), k4) < 0))))
                k5 = skol()
                out.append(z3.Or(m > n, t <= s, z3.And(0 <= k5, k5 < n, z3.If(k5 < m, sel(t.arg(0), k5) > sel(s.arg(0), k5), sel(s.arg(0), k5) < 0))))
                # difference in at most one position is covered by triples
    if level >= 2 and len(S2) <= 8:
        for i, s in enumerate(S2):
            for j, t in enumerate(S2):
                if j <= i or s.sort() != t.sort():
                    continue
                for l, u in enumerate(S2):
                    if l in (i, j) or u.sort() != s.sort() or not new("t", s, t, u):
                        continue
                    k = skol()
                    out.append(z3.Or(s.arg(1) != t.arg(1), s.arg(1) != u.arg(1), s + t == u,
                                     z3.And(0 <= k, k < s.arg(1),
                                            sel(s.arg(0), k) + sel(t.arg(0), k) != sel(u.arg(0), k))))
        for i, s in enumerate(S2):          # point difference: equal except at one position p
            for t in S2[i + 1:]:
                if s.sort() != t.sort() or not new("d", s, t):
                    continue
                p, q = skol(), skol()
                # exists p: (0<=p<n, s_p != t_p) and (all other equal) -> s - t == s_p - t_p
                out.append(z3.Or(s.arg(1) != t.arg(1), s == t,
                                 z3.And(0 <= p, p < s.arg(1), sel(s.arg(0), p) != sel(t.arg(0), p),
                                        z3.Or(s - t == sel(s.arg(0), p) - sel(t.arg(0), p),
                                              z3.And(0 <= q, q < s.arg(1), q != p,
                                                     sel(s.arg(0), q) != sel(t.arg(0), q))))))
    pis = collect(exprs, {"PowI"})
    if pis:
        consts = int_consts(exprs)
        for p in pis:
            if not new("powi", p):
                continue
            c, t = p.arg(0), p.arg(1)
            cv = c.as_long()
            out += [z3.Implies(t >= 0, p >= 1), z3.Implies(t <= 0, p == 1), z3.Implies(t >= 0, PowI(c, t + 1) == c * p),
                    z3.Implies(t >= 1, z3.And(p == c * PowI(c, t - 1), PowI(c, t - 1) >= 1))]
            out += [z3.Implies(t == k, p == cv ** k) for k in consts]
    for p in collect(exprs, {"Pow"}):
        if not new("w", p):
            continue
        x, k = p.arg(0), p.arg(1)
        out += [z3.Implies(k == 0, p == 1), z3.Implies(k == 1, p == x), z3.Implies(k == 2, p == x * x),
                z3.Implies(z3.And(x >= 0, k >= 0), p >= 0), z3.Implies(z3.And(x > 0, k >= 0), p > 0),
                z3.Implies(z3.And(x >= 0, x <= 1, k >= 0), p <= 1),
                z3.Implies(z3.And(x >= 0, x <= 1, k >= 1), p <= x),
                z3.Implies(z3.And(x >= 0, x < 1, k >= 1), p <= x),
                z3.Implies(k >= 0, Pow(x, k + 1) == x * p),
                z3.Implies(k >= 1, p == x * Pow(x, k - 1))]
    pows = collect(exprs, {"Pow"})
    if len(pows) <= 8:
        for i, p in enumerate(pows):
            for q in pows[i + 1:]:
                if not new("pp", p, q):
                    continue
                x, k, y, l = p.arg(0), p.arg(1), q.arg(0), q.arg(1)
                out += [z3.Implies(z3.And(x == y, k == l), p == q),
                        z3.Implies(z3.And(k == l, x >= 0, x <= y, k >= 0), p <= q),
                        z3.Implies(z3.And(k == l, y >= 0, y <= x, k >= 0), q <= p),
                        z3.Implies(z3.And(x == y, x >= 0, x <= 1, k <= l, k >= 0), q <= p),
                        z3.Implies(z3.And(x == y, x >= 0, x <= 1, l <= k, l >= 0), p <= q),
                        z3.Implies(z3.And(x == y, l == k + 1, k >= 0), q == x * p),
                        z3.Implies(z3.And(x == y, k == l + 1, l >= 0), p == x * q)]
    for s in collect(exprs, {"Sqrt"}):
        if not new("q", s):
            continue
        x = s.arg(0)
        out += [z3.Implies(x >= 0, z3.And(s >= 0, s * s == x))]
    for s in collect(exprs, {"Exp"}):
        if not new("e", s):
            continue
        x = s.arg(0)
        out += [s > 0, z3.Implies(x >= 0, s >= 1), z3.Implies(x <= 0, s <= 1), s >= 1 + x,
                z3.Implies(x > 0, s > 1), z3.Implies(x < 0, s < 1)]
    return out


def lam_body(a):
    """body of a one-argument lambda with its variable replaced by a constant, or None"""
    if not (z3.is_quantifier(a) and a.is_lambda() and a.num_vars() == 1 and a.var_sort(0) == I):
        return None
    return z3.substitute_vars(a.body(), PT)


PT = z3.Int("pt%")


def point_of(a):
    """terms c with `index == c` in the body of the lambda: the only positions that may contribute"""
    b = lam_body(a)
    out = []
    if b is None:
        return out
    todo, seen = [b], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_eq(t):
            for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if x.eq(PT) and not occurs_const(y, PT) and not has_var(y):
                    out.append(y)
        todo += t.children()
    return out[:2]


def has_var(t):
    if z3.is_var(t):
        return True
    return any(has_var(c) for c in t.children())


def reversed_index(a):
    b = lam_body(a)
    if b is None:
        return False
    todo, seen = [b], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_sub(t) and any(c.eq(PT) for c in t.children()[1:]):
            return True
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() == -1 and t.arg(1).eq(PT):
            return True
        todo += t.children()
    return False


def int_consts(exprs, lo=0, hi=130):
    out, seen, st = set(), set(), list(exprs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int_value(x):
            v = abs(x.as_long())
            if lo <= v <= hi:
                out |= {v, v + 1, max(0, v - 1)}
        elif z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return sorted(out)
