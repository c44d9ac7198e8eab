"""Parser combinators of nom over &str: what a parser consumes at least, whether it
can only succeed at the end of the input, and what it returns.

A parser is summarised as at most two alternatives (eof, kmin, out): it succeeds
consuming at least kmin bytes (eof False), or consuming everything, at least kmin
bytes (eof True); out is a template of its output."""
import re

from .core import I, Z0
from .models import NONE, SOME, rx, deref, get_s

STR = None


def S(E, bits, lo=0):
    return ("sh", ("S", bits, lo, None, -(-lo // 4), None, None, 0))


def merge(E, alts):
    out = {}
    for eof, k, t in alts:
        if eof in out:
            k0, t0 = out[eof]
            out[eof] = (min(k, k0), E.tjoin(t0, t))
        else:
            out[eof] = (k, t)
    return [(e, k, t) for e, (k, t) in sorted(out.items())]


def seq(E, A, B, f):
    r = []
    for e1, k1, t1 in A:
        for e2, k2, t2 in B:
            if e1 and k2 > 0:
                continue
            r.append((e1 or e2, k1 + k2, f(t1, t2)))
    return merge(E, r)


LEAF = {
    "alpha1": (1, "alpha"), "alpha0": (0, "alpha"), "alphanumeric1": (1, "any"), "alphanumeric0": (0, "any"), "digit1": (1, "any"), "digit0": (0, "any"),
    "space1": (1, "any"), "space0": (0, "any"), "multispace1": (1, "any"), "multispace0": (0, "any"), "crlf": (2, "crlf"), "newline": (1, "nl"), "line_ending": (1, "any"),
    "not_line_ending": (0, "any"), "rest": (0, "rest"), "eof": (0, "eof"), "tab": (1, "tab"), "anychar": (1, "char"),
}


def leaf(E, name):
    A = E.A
    if name not in LEAF:
        return None
    k, kind = LEAF[name]
    if kind == "eof":
        return [(True, 0, ("sh", gens(E, "")))]
    if kind == "rest":
        return [(True, 0, S(E, A.ALL))]
    if kind == "crlf":
        return [(False, 2, ("sh", gens(E, "\r\n")))]
    if kind == "nl":
        return [(False, 1, ("C", A.of("\n"), 0))]
    if kind == "tab":
        return [(False, 1, ("C", A.of("\t"), 0))]
    if kind == "char":
        return [(False, 1, ("C", A.ALL, 0))]
    if kind == "alpha":
        return [(False, k, S(E, A.of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"), k))]
    return [(False, k, S(E, A.ALL, k))]


def gens(E, text):
    n = len(text.encode())
    return ("S", E.A.of(text), n, n, len(text), len(text), frozenset([text]), 0)


def known(E, st, v):
    v = deref(E, st, v)
    if v[0] == "s":
        return E.S(st, v).k
    return None


def minlen(E, st, v):
    v = deref(E, st, v)
    if v[0] == "s":
        return E.lb(st, E.S(st, v).bl) or 0
    if v[0] == "c":
        return 1
    return 0


def call(E, st, f, args):
    """templates of the results of a callable"""
    out = []
    for s, v in E.call_value(st, f, args, None):
        if not s.z.bot:
            out.append(E.gen(s, v))
    return out


def summary(E, st, p, depth=0):
    """alternatives of a parser value"""
    A = E.A
    anyp = [(False, 0, ("un",))]
    if depth > 30:
        return anyp
    sub = lambda q: summary(E, st, q, depth + 1)
    if p[0] in ("sh", "mu"):
        q = deref(E, st, p)
        if q[0] == "s":
            t = known(E, st, q)
            return [(False, minlen(E, st, q), ("sh", gens(E, t)) if t is not None else S(E, A.ALL))]
        return sub(q)
    if p[0] == "c":
        return [(False, 1, E.gen(st, p))]
    if p[0] == "agg":
        return sequence(E, [sub(q) for q in p[1]])
    if p[0] == "fn":
        c = E.T[p[1]]["callee"]
        r = leaf(E, c["decl"].split("::")[-1]) if c["decl"].startswith("nom::") else None
        return r or anyp
    if p[0] != "obj" or not p[1].startswith("nom:"):
        return anyp
    name, a = p[1][4:], p[3]
    if name == "fn":
        return summary(E, st, a[0], depth + 1)
    if name in ("tag", "tag_no_case"):
        t = known(E, st, a[0]) if name == "tag" else None
        return [(False, minlen(E, st, a[0]), ("sh", gens(E, t)) if t is not None else S(E, A.ALL))]
    if name == "char":
        return [(False, 1, E.gen(st, a[0]))]
    if name in ("one_of", "none_of"):
        t = known(E, st, a[0])
        bits = A.ALL if t is None else (A.of(t) if name == "one_of" else A.ALL & ~A.of(t))
        return [(False, 1, ("C", bits, 0))]
    if name == "satisfy":
        return [(False, 1, ("C", A.ALL, 0))]
    if name in ("is_not", "is_a"):
        t = known(E, st, a[0])
        bits = A.ALL if t is None else (A.of(t) if name == "is_a" else A.ALL & ~A.of(t))
        return [(False, 1, S(E, bits, 1))]
    if name in ("take_till1", "take_while1"):
        return [(False, 1, S(E, A.ALL, 1))]
    if name in ("take_till", "take_while", "take_until"):
        return [(False, 0, S(E, A.ALL))]
    if name == "take_until1":
        return [(False, 1, S(E, A.ALL, 1))]
    if name in ("map", "map_opt", "map_res"):
        out = []
        for e, k, t in sub(a[0]):
            s = st.copy()
            v = fill(E, s, t, closure_arg(E, a[1]))
            for r in call(E, s, a[1], [v]):
                if name != "map":
                    if r[0] == "en":
                        want = 1 if name == "map_opt" else 0
                        r = next((f[0] for j, f in r[1] if j == want and f), None)
                        if r is None:
                            continue
                    else:
                        r = ("un",)
                out.append((e, k, r))
        return merge(E, out)
    if name == "opt":
        return merge(E, [(e, k, ("en", ((1, (t,)),))) for e, k, t in sub(a[0])] + [(False, 0, ("en", ((0, ()),)))])
    if name == "value":
        return [(e, k, E.gen(st, a[0])) for e, k, _ in sub(a[1])]
    if name in ("recognize",):
        return [(e, k, S(E, A.ALL, k)) for e, k, _ in sub(a[0])]
    if name in ("verify", "cut", "complete", "into"):
        return [(e, k, t if name != "into" else ("un",)) for e, k, t in sub(a[0])]
    if name == "all_consuming":
        return merge(E, [(True, k, t) for e, k, t in sub(a[0])])
    if name in ("peek", "not"):
        return [(False, 0, t if name == "peek" else ("agg", ())) for e, k, t in merge(E, [(False, 0, t) for _, _, t in sub(a[0])])]
    if name == "delimited":
        return seq(E, seq(E, sub(a[0]), sub(a[1]), lambda x, y: y), sub(a[2]), lambda x, y: x)
    if name == "pair":
        return seq(E, sub(a[0]), sub(a[1]), lambda x, y: ("agg", (x, y)))
    if name == "preceded":
        return seq(E, sub(a[0]), sub(a[1]), lambda x, y: y)
    if name == "terminated":
        return seq(E, sub(a[0]), sub(a[1]), lambda x, y: x)
    if name == "separated_pair":
        return seq(E, seq(E, sub(a[0]), sub(a[1]), lambda x, y: x), sub(a[2]), lambda x, y: ("agg", (x, y)))
    if name == "alt":
        q = deref(E, st, a[0])
        ps = q[1] if q[0] == "agg" else q[2] if q[0] == "seq" and q[2] is not None else None
        if ps is None:
            return anyp
        return merge(E, [r for x in ps for r in sub(x)])
    if name in ("many1", "many1_count", "separated_list1"):
        return [(False, min(k for _, k, _ in sub(a[-1] if name == "separated_list1" else a[0])), ("un",))]
    return anyp


def sequence(E, parts):
    cur = [(False, 0, ("agg", ()))]
    for x in parts:
        cur = seq(E, cur, x, lambda t, u: ("agg", t[1] + (u,)))
    return cur


def closure_arg(E, f):
    """type of the single argument of a callable"""
    if f[0] == "clo":
        b = E.F.get(E.T[f[1]].get("body"))
        if b is not None and len(b["locals"]) > 2:
            return b["locals"][2]
    if f[0] == "fn":
        c = E.F.get(E.T[f[1]]["callee"].get("inst"))
        if c is not None and c.get("argc") == 1:
            return c["locals"][1]
    return None


def vague(t):
    if t is None or t[0] == "un":
        return True
    return any(vague(x) for x in (t[1] if t[0] == "agg" else t[1:2] if t[0] == "sh" else ()) if isinstance(x, tuple) or x is None) if t[0] in ("agg", "sh") else t[0] == "en" and any(vague(y) for _, fs in t[1] for y in fs)


def fill(E, st, t, ty):
    """a value of a template; what the template does not know comes from the type"""
    if vague(t):
        if t is not None and t[0] == "agg" and ty is not None and E.T[ty]["k"] == "tuple" and len(E.T[ty]["elems"]) == len(t[1]):
            return ("agg", tuple(fill(E, st, x, e) for x, e in zip(t[1], E.T[ty]["elems"])))
        return E.deep_expand(st, ("top", ty)) if ty is not None else ("un",)
    return E.instantiate(st, t)


COMB = r"^nom::(?:bytes::complete|character::complete|combinator|sequence|branch|multi)::(\w+)$"


@rx(COMB)
def m_comb(E, st, a, x):
    p = x["path"] if re.match(COMB, x["path"]) else x["decl"]
    name = re.match(COMB, p).group(1)
    if name in LEAF and len(a) == 1:
        return run(E, st, leaf(E, name), a[0], x["dty"])
    t = E.T[x["dty"]] if x["dty"] is not None else None
    if t is not None and t["k"] == "adt" and t["path"].endswith("result::Result"):
        return run(E, st, [(False, 0, ("un",))], a[-1], x["dty"])
    return [(st, ("obj", "nom:" + name, x["dty"], tuple(a)))]


@rx(r"^nom::Parser::(map|map_opt|map_res|and|or|opt)$")
def m_method(E, st, a, x):
    name = x["decl"].split("::")[-1]
    if name in ("and", "or"):
        name, a = ("pair", a) if name == "and" else ("alt", [("agg", tuple(a))])
    return [(st, ("obj", "nom:" + name, x["dty"], tuple(a)))]


@rx(r"^nom::Parser::parse$|^nom::Parser::parse_complete$")
def m_parse(E, st, a, x):
    p = a[0]
    return run(E, st, summary(E, st, p), a[1], x["dty"], parser=p)


def run(E, st, alts, inp, dty, parser=None):
    """Result<(rest, out), Err>"""
    sv = get_s(E, st, inp)
    rt = E.T[dty]
    okt = rt["variants"][0]["fields"][0][1]
    pair = E.T[okt]["elems"]
    out = []
    s = st.copy()
    errt = rt["variants"][1]["fields"][0][1]
    out.append((s, ("en", ((1, (("top", errt),)),))))
    for eof, k, t in alts:
        s = st.copy()
        i = E.S(s, sv)
        if eof:
            if not E.le(s, I(k), i.bl):
                continue
            rest = E.conststr(s, "")
        else:
            if not E.le(s, I(k), i.bl):
                continue
            rest = E.newstr(s, i.cs)
            if not E.le(s, E.S(s, rest).bl, i.bl, -k):
                continue
        v = fill(E, s, t, pair[1])
        out.append((s, ("en", ((0, (("agg", (("sh", rest), v)),)),))))
    return [(s, v) for s, v in out if not s.z.bot]
