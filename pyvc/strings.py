"""Structured strings: a symbolic string is a concatenation of literals and of the decimal texts of ints and floats.

Trusted facts about Python: the text of an int or a float contains neither ',' nor whitespace; int(str(i)) == i and
float(repr(x)) == x (shortest round-trip text of a finite float); surrounding whitespace is ignored by int() and float()."""
import string as _string
import z3
from .values import *

IntStr = z3.Function("IntStr", z3.IntSort(), z3.StringSort())
RealStr = z3.Function("RealStr", z3.RealSort(), z3.StringSort())
NUMERIC = set("0123456789+-.einfaE")
NOTE = "decimal text of ints/floats: no separators in it; int()/float() of it give the number back"


def pieces(s):
    if s.conc:
        return [s.v]
    out = []

    def walk(t):
        if z3.is_string_value(t):
            out.append(t.as_string().replace("\\u{a}", "\n"))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                walk(c)
        else:
            out.append(t)
    walk(s.v)
    return out


def make(ps):
    merged = []
    for p in ps:
        if isinstance(p, str) and merged and isinstance(merged[-1], str):
            merged[-1] += p
        elif p != "" if isinstance(p, str) else True:
            merged.append(p)
    if not merged:
        return S("")
    if len(merged) == 1:
        return S(merged[0])
    return S(z3.Concat(*[z3.StringVal(p) if isinstance(p, str) else p for p in merged]))


def text(x):
    """str(x) as pieces, or None"""
    if not isinstance(x, S):
        return None
    if x.kind == "str":
        return pieces(x)
    if x.kind == "int":
        return [str(x.v)] if x.conc else [IntStr(x.v)]
    if x.kind == "real" and not x.conc:
        t = x.v
        return [RealStr(t)]
    return None


def is_num(p):
    return not isinstance(p, str) and z3.is_app(p) and p.decl().name() in ("IntStr", "RealStr")


def fmt(e, template, args, kwargs):
    if not template.conc or kwargs:
        return None
    out, i = [], 0
    try:
        for lit, field, spec, conv in _string.Formatter().parse(template.v):
            out.append(lit)
            if field is None:
                continue
            if field != "" or spec or conv:
                return None
            t = text(args[i])
            i += 1
            if t is None:
                return None
            out += t
    except (ValueError, IndexError):
        return None
    if any(is_num(p) for p in out):
        e.trusted_used.add(NOTE)
    return make(out)


def method(e, c, name, args, kwargs):
    """split / strip on a structured string, or None"""
    ps = pieces(c)
    if kwargs or not all(isinstance(a, S) and a.conc for a in args):
        return None
    if not all(isinstance(p, str) or is_num(p) for p in ps):
        return None
    if name == "split" and len(args) == 1 and args[0].v and not (set(args[0].v) & NUMERIC):
        out, cur = [], []
        for p in ps:
            if isinstance(p, str):
                bits = p.split(args[0].v)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(make(cur))
                    cur = [b]
            else:
                cur.append(p)
        out.append(make(cur))
        e.trusted_used.add(NOTE)
        return e.new_list(CSeq(out))
    if name in ("strip", "rstrip", "lstrip"):
        chars = args[0].v if args else None
        if chars is not None and set(chars) & NUMERIC:
            return None
        ps = list(ps)
        if name != "rstrip" and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(chars)
        if name != "lstrip" and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(chars)
        return make(ps)
    return None


def number(e, x):
    """the numeric piece of a string that is a number's text surrounded by whitespace, or None"""
    ps = [p.strip() if isinstance(p, str) else p for p in pieces(x)]
    ps = [p for p in ps if not (isinstance(p, str) and p == "")]
    if len(ps) == 1 and is_num(ps[0]):
        e.trusted_used.add(NOTE)
        return ps[0]
    return None
