"""Semantics of the library functions the analysed crate calls."""
import re

from .core import UN, UNIT, TRUE, FALSE, Z0, I, SMAX, SI, RAW, LOOSE, Limit, INF

NONE = ("en", ((0, ()),))


def SOME(v):
    return ("en", ((1, (v,)),))


def OK(v):
    return ("en", ((0, (v,)),))


def ERR(v):
    return ("en", ((1, (v,)),))


MODELS = {}
RX = []


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn

    return deco


def rx(pat):
    def deco(fn):
        RX.append((re.compile(pat), fn))
        return fn

    return deco


PRELIM = 6
KLIM = 64


# ----------------------------------------------------------------- strings
def cw(E, st, c):
    """definite UTF-8 width of a character value or None"""
    lo, hi = E.A.wminmax(E.cset(st, c))
    return lo if lo == hi else None


def pre_pos(E, st, i, lin):
    """j such that lin is the byte width of pre[:j], or None"""
    n = E.const(st, lin)
    if n is None:
        return None
    w = 0
    if n == 0:
        return 0
    for j, c in enumerate(i.pre):
        x = cw(E, st, c)
        if x is None:
            return None
        w += x
        if w == n:
            return j + 1
        if w > n:
            return None
    return None


def suf_pos(E, st, i, lin):
    """j such that bl - lin is the byte width of the last j characters"""
    d = E.subi(st, i.bl, lin)
    n = E.const(st, d)
    if n is None:
        return None
    if n == 0:
        return 0
    w = 0
    for j in range(1, len(i.suf) + 1):
        x = cw(E, st, i.suf[-j])
        if x is None:
            return None
        w += x
        if w == n:
            return j
        if w > n:
            return None
    return None


def eq_lin(E, st, a, b):
    return E.known_le(st, a, b) and E.known_le(st, b, a)


def boundary(E, st, sv, lin):
    """is byte offset lin (already known <= bl) surely a char boundary"""
    i = E.S(st, sv)
    if i.cs & ~E.A.ASCII == 0:
        return True
    if E.const(st, lin) == 0 or eq_lin(E, st, lin, i.bl):
        return True
    if pre_pos(E, st, i, lin) is not None or suf_pos(E, st, i, lin) is not None:
        return True
    for b in i.bn:
        if eq_lin(E, st, b[:3], lin):
            return True
    for k, c in st.at.items():
        if k[0] == sv[1]:
            w = cw(E, st, c)
            p = ("i",) + k[1:]
            if eq_lin(E, st, p, lin) or (w is not None and eq_lin(E, st, E.addi(st, p, I(w)), lin)):
                return True
    return False


def oldest(E, st, lin):
    """the oldest variable (plus constant) equal to lin"""
    if lin is None or lin[1] == 0:
        return lin
    z = st.z
    j = z.ix.get(lin[1])
    best = lin
    if j is not None:
        for v, k in z.ix.items():
            if v < best[1] and k < z.n and z.M[k, j] + z.M[j, k] == 0:
                best = ("i", v, lin[2] + int(z.M[j, k]))
    return best


def char_pos(E, st, i, lin):
    """character index of a byte position, if known"""
    if E.const(st, lin) == 0:
        return I(0)
    if eq_lin(E, st, lin, i.bl):
        return i.cl
    for b in i.bn:
        if len(b) > 3 and eq_lin(E, st, b[:3], lin):
            return ("i",) + b[3:5]
    return None


def substr(E, st, sv, a, b):
    i = E.S(st, sv)
    if E.const(st, a) == 0 and eq_lin(E, st, b, i.bl):
        return sv
    bl = E.subi(st, b, a)
    A = E.A
    c = E.const(st, bl)
    if c == 0:
        return E.conststr(st, "")
    pa, pb = pre_pos(E, st, i, a), pre_pos(E, st, i, b)
    sa, sb = suf_pos(E, st, i, a), suf_pos(E, st, i, b)
    ka = E.const(st, a)
    if i.k is not None and ka is not None and E.const(st, b) is not None:
        by = i.k.encode()[ka : E.const(st, b)]
        try:
            return E.conststr(st, by.decode())
        except UnicodeDecodeError:
            pass
    ex = False
    pre, suf = (), ()
    if pa is not None and pb is not None:
        pre = suf = i.pre[pa:pb]
        ex = True
    elif sa is not None and sb is not None:
        pre = suf = i.suf[len(i.suf) - sa : len(i.suf) - sb]
        ex = True
    else:
        if pa is not None:
            # characters that surely lie before b
            w = 0
            out = []
            for ch in i.pre[pa:]:
                x = cw(E, st, ch)
                if x is None:
                    break
                w += x
                if not E.known_le(st, I(w), bl):
                    break
                out.append(ch)
            pre = tuple(out)
        if sb is not None:
            w = 0
            out = []
            for j in range(sb + 1, len(i.suf) + 1):
                ch = i.suf[-j]
                x = cw(E, st, ch)
                if x is None:
                    break
                w += x
                if not E.known_le(st, I(w), bl):
                    break
                out.insert(0, ch)
            suf = tuple(out)
    if ex:
        cs = 0
        for ch in pre:
            cs |= E.cset(st, ch)
        ks = [A.single(E.cset(st, ch)) for ch in pre]
        if all(k is not None for k in ks):
            return E.conststr(st, "".join(map(chr, ks)))
        s = E.fresh()
        st.st[s] = SI(bl if c is None else I(c), I(len(pre)), cs, pre, suf, True, None, frozenset(), i.tag, None)
        return ("s", s)
    wlo, whi = A.wminmax(i.cs)
    if i.cs & ~A.ASCII == 0:
        cl = bl
    else:
        u, l = E.ub(st, bl), E.lb(st, bl)
        cl = E.newint(st, max(len(pre), len(suf), 1 if l and l >= 1 else 0), None if u is None else u // wlo)
        E.le(st, cl, bl)
        E.le(st, cl, i.cl)
        if ka == 0 or E.const(st, a) is not None:
            pass
        # removing a known tail of j characters
        if E.const(st, a) == 0 and sb is not None:
            cl = E.addi(st, i.cl, I(-sb))
        elif pa is not None and eq_lin(E, st, b, i.bl):
            cl = E.addi(st, i.cl, I(-pa))
        else:
            ca, cb = oldest(E, st, char_pos(E, st, i, a)), oldest(E, st, char_pos(E, st, i, b))
            if ca is not None and cb is not None:
                if E.known_le(st, ca, cb):
                    cl = E.subi(st, cb, ca)
                    E.le(st, cl, bl)
                elif E.le(st, ca, cb):
                    # a position before another has a smaller character index
                    cl = E.subi(st, cb, ca)
    bn = set()
    if E.const(st, a) == 0:
        for x in i.bn:
            if E.known_le(st, x, b):
                bn.add(x)
    s = E.fresh()
    st.st[s] = SI(bl, cl, i.cs, pre, suf, False, None, frozenset(bn), i.tag, None)
    return ("s", s)


def str_index(E, st, sv, a, b, what):
    """checked slicing"""
    i = E.S(st, sv)
    ok = E.known_le(st, a, b) and E.known_le(st, b, i.bl) and (E.lb(st, a) or 0) >= 0
    if not ok and st.at:
        E.tighten(st, sv)
        ok = E.known_le(st, a, b) and E.known_le(st, b, i.bl) and (E.lb(st, a) or 0) >= 0
    E.oblig(st, ok, "str-range", what)
    if not ok:
        if not (E.le(st, a, b) and E.le(st, b, i.bl)):
            return None
    ba, bb = boundary(E, st, sv, a), boundary(E, st, sv, b)
    E.oblig(st, ba and bb, "str-boundary", what)
    return substr(E, st, sv, a, b)


def range_of(E, st, rv, rty, total):
    """(start, end, inclusive) of a range value of type rty"""
    p = E.T[rty]["path"] if E.T[rty]["k"] == "adt" else ""
    p = p.split("::")[-1]
    fs = rv[1] if rv[0] == "agg" else None
    if fs is None:
        return None
    if p == "Range":
        return fs[0], fs[1]
    if p == "RangeFrom":
        return fs[0], total
    if p == "RangeTo":
        return Z0, fs[0]
    if p == "RangeFull":
        return Z0, total
    if p == "RangeInclusive":
        return fs[0], ("incl", fs[1])
    if p == "RangeToInclusive":
        return Z0, ("incl", fs[0])
    return None


def incl_end(E, st, b, what):
    if b[0] == "incl":
        e = b[1]
        ok = E.ub(st, e) is not None
        E.oblig(st, ok, "range-overflow", what)
        return E.addi(st, e, I(1))
    return b


def get_s(E, st, v):
    """string value behind references"""
    n = 0
    while v[0] in ("sh", "mu", "top") and n < 6:
        n += 1
        if v[0] == "top":
            e = E.expand(st, v[1])
            if e[0] == "top":
                return E.newstr(st, E.A.ALL)
            v = e
        else:
            v = E.rd(st, v)
    if v[0] == "obj" and v[1] == "cow":
        return get_s(E, st, v[3][0])
    if v[0] == "en":
        # Cow<str>
        for _, fs in v[1]:
            if fs:
                x = fs[0]
                if x[0] in ("sh", "s"):
                    return get_s(E, st, x)
    if v[0] == "s":
        return v
    return E.newstr(st, E.A.ALL)


def get_c(E, st, v):
    n = 0
    while v[0] in ("sh", "mu", "top") and n < 6:
        n += 1
        if v[0] == "top":
            e = E.expand(st, v[1])
            if e[0] == "top":
                break
            v = e
        else:
            v = E.rd(st, v)
    if v[0] == "c":
        return v
    return E.newchar(st, E.A.ALL)


def get_seq(E, st, v):
    n = 0
    while v[0] in ("sh", "mu", "top") and n < 6:
        n += 1
        if v[0] == "top":
            e = E.expand(st, v[1])
            if e[0] == "top":
                break
            v = e
        else:
            v = E.rd(st, v)
    if v[0] == "seq":
        return v
    return ("seq", E.newint(st, 0, SMAX), None, ("un",))


def deref(E, st, v):
    n = 0
    while v[0] in ("sh", "mu") and n < 6:
        n += 1
        v = E.rd(st, v)
    return v


def mkstr(E, st, bl, cl, cs, pre=(), suf=(), ex=False, k=None, bn=(), tag=0):
    A = E.A
    if tag & LOOSE and not cs & E.loose:
        tag &= ~LOOSE
    if cs & ~A.ASCII == 0 and bl != cl:
        # all ASCII: byte and char length agree
        E.eqi(st, bl, cl)
        bl = cl
    s = E.fresh()
    st.st[s] = SI(bl, cl, cs, tuple(pre), tuple(suf), ex, k, frozenset(bn), tag, None)
    return ("s", s)


def concat(E, st, a, b):
    ia, ib = E.S(st, a), E.S(st, b)
    if ib.k == "":
        return a
    if ia.k == "":
        return b
    if ia.k is not None and ib.k is not None and len(ia.k) + len(ib.k) <= KLIM:
        return E.conststr(st, ia.k + ib.k)
    bl = E.addi(st, ia.bl, ib.bl)
    if ia.bl == ia.cl and ib.bl == ib.cl:
        cl = bl
    else:
        cl = E.addi(st, ia.cl, ib.cl)
        E.le(st, cl, bl)
    ex = ia.ex and ib.ex and len(ia.pre) + len(ib.pre) <= PRELIM
    pre = ia.pre + ib.pre if ia.ex else ia.pre
    suf = ia.suf + ib.suf if ib.ex else ib.suf
    if ex:
        suf = pre = ia.pre + ib.pre
    bn = set(ia.bn)
    bn.add(ia.bl)
    s = E.fresh()
    st.st[s] = SI(bl, cl, ia.cs | ib.cs, pre[:PRELIM], suf[-PRELIM:], ex, None, frozenset(x for x in bn if x[1] != 0 or x[2] != 0), ia.tag | ib.tag, None)
    return ("s", s)


def charstr(E, st, c):
    bits = E.cset(st, c)
    k = E.A.single(bits)
    if k is not None and not E.ctag(st, c):
        return E.conststr(st, chr(k))
    lo, hi = E.A.wminmax(bits)
    bl = I(lo) if lo == hi else E.newint(st, lo, hi)
    s = E.fresh()
    st.st[s] = SI(bl, I(1), bits, (c,), (c,), True, chr(k) if k is not None else None, frozenset(), E.ctag(st, c), None)
    return ("s", s)


def refine_const(E, st, sv, k):
    """assume the string equals the constant k; False if impossible"""
    i = E.S(st, sv)
    if i.k is not None:
        return i.k == k
    by = k.encode()
    if not E.eqi(st, i.bl, I(len(by))) or not E.eqi(st, i.cl, I(len(k))):
        return False
    if i.ex and len(i.pre) != len(k):
        return False
    if E.A.of(k) & ~i.cs:
        return False
    for c, ch in zip(i.pre, k):
        if not E.setcs(st, c, E.A.c(ord(ch))):
            return False
    if i.suf:
        for c, ch in zip(reversed(i.suf), reversed(k)):
            if not E.setcs(st, c, E.A.c(ord(ch))):
                return False
    pre = i.pre
    if len(pre) < len(k) <= 24:
        pre = pre + tuple(("c", -(ord(ch) + 1)) for ch in k[len(pre) :])
    ids = pre if len(k) <= 24 else pre[:6]
    st.st[sv[1]] = i._replace(k=k, pre=ids, suf=ids if len(k) <= 24 else i.suf, ex=len(k) <= 24, cs=E.A.of(k), prov=None)
    return True


def str_eq(E, st, a, b, what="=="):
    """[(state, bool)]"""
    ia, ib = E.S(st, a), E.S(st, b)
    if a == b:
        return [(st, True)]
    if ia.k is not None and ib.k is not None:
        raw_str(E, st, ia, ib, what)
        return [(st, ia.k == ib.k)]
    if ia.k is not None:
        a, b, ia, ib = b, a, ib, ia
    raw_str(E, st, ia, ib, what)
    if ib.k is not None:
        if ia.prov and ia.prov[0] == "oneof" and ib.k not in ia.prov[1]:
            return [(st, False)]
        s2 = st.copy()
        out = []
        if refine_const(E, s2, a, ib.k):
            out.append((s2, True))
        # false side
        if ib.k == "":
            if E.le(st, I(1), i_cl(E, st, a)):
                E.le(st, I(1), E.S(st, a).bl)
                out.append((st, False))
        else:
            if ia.prov and ia.prov[0] == "oneof":
                r = ia.prov[1] - {ib.k}
                if not r:
                    return out
                if len(r) == 1:
                    if refine_const(E, st, a, next(iter(r))):
                        out.append((st, False))
                    return out
                st.st[a[1]] = ia._replace(prov=("oneof", r))
            if ia.ex and len(ia.pre) == len(ib.k):
                rest = [(c, ch) for c, ch in zip(ia.pre, ib.k) if E.A.single(E.cset(st, c)) != ord(ch)]
                if not rest:
                    return out
                if len(rest) == 1:
                    if not E.setcs(st, rest[0][0], E.A.ALL & ~E.A.c(ord(rest[0][1]))):
                        return out
            out.append((st, False))
        return out
    # two unknown strings
    if ia.cs & ib.cs == 0:
        s2 = st.copy()
        out = []
        if E.eqi(s2, ia.bl, I(0)) and E.eqi(s2, ib.bl, I(0)):
            out.append((s2, True))
        out.append((st, False))
        return out
    s2 = st.copy()
    out = []
    if E.eqi(s2, ia.bl, ib.bl) and E.eqi(s2, ia.cl, ib.cl):
        out.append((s2, True))
    out.append((st, False))
    return out


def i_cl(E, st, a):
    return E.S(st, a).cl


def raw_str(E, st, ia, ib, what):
    h = E.hooks.get("raw_str")
    if h and (ia.tag or ib.tag):
        h(E, st, ia, ib, what)


def with_pre(E, st, sv, n):
    """make the first n characters explicit (they must be known to exist)"""
    i = E.S(st, sv)
    pre = list(i.pre)
    while len(pre) < n:
        pre.append(E.newchar(st, i.cs, i.tag))
    if len(pre) != len(i.pre):
        st.st[sv[1]] = i._replace(pre=tuple(pre))
    return pre


def with_suf(E, st, sv, n):
    i = E.S(st, sv)
    suf = list(i.suf)
    while len(suf) < n:
        suf.insert(0, E.newchar(st, i.cs, i.tag))
    if len(suf) != len(i.suf):
        st.st[sv[1]] = i._replace(suf=tuple(suf))
    return suf


def sets_of(E, pat):
    return [E.A.c(ord(ch)) for ch in pat]


def affix(E, st, sv, sets, kb, end, what):
    """fork on: the string starts (ends) with characters out of sets"""
    i = E.S(st, sv)
    n = len(sets)
    if n == 0:
        return [(st, True)]
    if i.tag:
        h = E.hooks.get("raw_test")
        if h:
            for b in sets:
                h(E, st, i.cs, b, what)
    out = []
    known = i.suf if end else i.pre
    if any(b & i.cs == 0 for b in sets):
        return [(st, False)]
    s1 = st.copy()
    if E.le(s1, I(n), i.cl) and E.le(s1, I(kb), i.bl) and not (i.ex and len(i.pre) < n):
        cs = with_suf(E, s1, sv, n)[-n:] if end else with_pre(E, s1, sv, n)[:n]
        if all(E.setcs(s1, c, b) for c, b in zip(cs, sets)) and E.le(s1, I(kb), E.S(s1, sv).bl) and overlap(E, s1, sv):
            out.append((s1, True))
    # negative side
    if n == 1 and (E.lb(st, i.cl) or 0) >= 1 and not known:
        known = with_suf(E, st, sv, 1)[-1:] if end else with_pre(E, st, sv, 1)[:1]
    m = len(known)
    if m >= n:
        part = known[-n:] if end else known[:n]
        rest = [(c, b) for c, b in zip(part, sets) if E.cset(st, c) & ~b]
        if not rest:
            return out
        if len(rest) == 1:
            c, b = rest[0]
            if E.A.single(b) is not None or True:
                if not E.setcs(st, c, E.A.ALL & ~b):
                    return out
    out.append((st, False))
    return out


def overlap(E, st, sv):
    """how much the known beginning and end of a string can overlap bounds its length"""
    j = E.S(st, sv)
    if j.ex or not j.pre or not j.suf:
        return True
    n, m = len(j.pre), len(j.suf)
    for ln in range(max(n, m), n + m + 1):
        k = n + m - ln
        if all(E.cset(st, x) & E.cset(st, y) for x, y in zip(j.pre[n - k :], j.suf[:k])) if k else True:
            break
    if (E.lb(st, j.cl) or 0) >= ln:
        return True
    w = 0
    for x in j.pre[: ln - m] + j.suf:
        w += E.A.wminmax(E.cset(st, x))[0]
    return bool(E.le(st, I(ln), j.cl) and E.le(st, I(w), E.S(st, sv).bl))


def pat_of(E, st, v, ty):
    """classify a pattern argument: ('char', bits) one char; ('str', sv); ('fn', value)"""
    t = E.T[ty]
    if t["k"] == "char":
        return ("char", v)
    if t["k"] == "ref" and E.T[t["elem"]]["k"] == "char":
        return ("char", get_c(E, st, v))
    if t["k"] == "ref" and (E.T[t["elem"]]["k"] == "str" or E.is_string_ty(E.T[t["elem"]]) or E.T[t["elem"]]["k"] == "ref"):
        return ("str", get_s(E, st, v))
    if t["k"] in ("array", "slice") or (t["k"] == "ref" and E.T[t["elem"]]["k"] in ("array", "slice")):
        s = get_seq(E, st, v)
        bits = 0
        el = s[2]
        if el is None:
            t = E.elem_t(st, s)
            return ("set", t[1] if t and t[0] == "C" else E.A.ALL, False)
        exact = True
        for x in el:
            c = get_c(E, st, x)
            b = E.cset(st, c)
            if E.A.single(b) is None:
                exact = False
            bits |= b
        return ("set", bits, exact)
    return ("fn", v)


def imprecise(st):
    st.flags = tuple(sorted(set(st.flags) | {"imp"}))


def has_mu(v):
    return isinstance(v, tuple) and (v[:1] == ("mu",) or any(has_mu(x) for x in v))


def fn_bits(E, st, fv, bits, tag, byref=False):
    """characters of bits for which a predicate may hold and may not hold; None: unknown"""
    if has_mu(fv) or fv[0] in ("un", "top"):
        return None
    t = f = 0
    s0 = st.copy()
    c = E.newchar(s0, bits, tag)
    s0.mem[("tmp", E.fresh())] = c
    for s, v in E.call_value(s0, fv, [("sh", c) if byref else c], None):
        if s.z.bot:
            continue
        for s2, b in E.split_bool(s, v):
            if s2.z.bot:
                continue
            if b:
                t |= E.cset(s2, c)
            else:
                f |= E.cset(s2, c)
    return t, f


def fn_pat(E, st, pat, i):
    """a predicate as the set of characters it holds for, when that is known"""
    if pat[0] != "fn":
        return pat
    r = fn_bits(E, st, pat[1], i.cs, i.tag)
    if r is not None and r[0] & r[1] == 0:
        return ("set", r[0], True)
    imprecise(st)
    return pat


@model("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with")
def m_affix(E, st, a, x):
    sv = get_s(E, st, a[0])
    end = x["path"].endswith("ends_with")
    p = pat_of(E, st, a[1], x["args_ty"][0])
    what = "ends_with" if end else "starts_with"
    if p[0] == "char":
        bits = E.cset(st, p[1])
        if E.A.single(bits) is None:
            return unknown_bool(st)
        r = affix(E, st, sv, [bits], E.A.wminmax(bits)[0], end, what)
    elif p[0] == "set":
        if not p[2]:
            return unknown_bool(st)
        r = affix(E, st, sv, [p[1]], 1, end, what)
    elif p[0] == "str":
        ip = E.S(st, p[1])
        if ip.k is None:
            i = E.S(st, sv)
            if p[1] == sv:
                return [(st, TRUE)]
            s2 = st.copy()
            out = []
            # the pattern's length is a boundary of the string
            if E.le(s2, ip.bl, i.bl) and E.le(s2, ip.cl, i.cl):
                ii = E.S(s2, sv)
                if end:
                    bnd = E.subi(s2, ii.bl, ip.bl)
                else:
                    bnd = ip.bl
                s2.st[sv[1]] = E.S(s2, sv)._replace(bn=ii.bn | {bnd})
                out.append((s2, TRUE))
            if not (E.const(st, ip.bl) == 0):
                out.append((st, FALSE))
            return out
        r = affix(E, st, sv, sets_of(E, ip.k), len(ip.k.encode()), end, what)
    else:
        # predicate on the first / last character
        i = E.S(st, sv)
        s0 = st.copy()
        out = []
        if E.eqi(s0, i.cl, Z0):
            out.append((s0, FALSE))
        if E.le(st, I(1), i.cl):
            c = (with_suf(E, st, sv, 1)[-1]) if end else with_pre(E, st, sv, 1)[0]
            for s, v in E.call_value(st, p[1], [c], None):
                for s2, b in E.split_bool(s, v):
                    out.append((s2, ("b", b)))
        return out
    return [(s, ("b", b)) for s, b in r]


def unknown_bool(st):
    s2 = st.copy()
    return [(st, TRUE), (s2, FALSE)]


@model("core::str::<impl str>::contains")
def m_contains(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    p = pat_of(E, st, a[1], x["args_ty"][0])
    if p[0] == "char":
        if i.k is not None:
            return [(s, ("b", b)) for s, b in E.char_in(st, p[1], E.A.of(i.k), "contains")]
        bits = E.cset(st, p[1])
        if i.tag:
            h = E.hooks.get("raw_test")
            if h:
                h(E, st, i.cs, bits, "contains")
        if bits & i.cs == 0:
            return [(st, FALSE)]
        return unknown_bool(st)
    if p[0] == "set":
        if p[1] & i.cs == 0:
            return [(st, FALSE)]
        return unknown_bool(st)
    if p[0] == "str":
        ip = E.S(st, p[1])
        raw_str(E, st, i, ip, "contains")
        if ip.k is not None:
            if i.k is not None:
                return [(st, ("b", ip.k in i.k))]
            if E.A.of(ip.k) & ~i.cs:
                return [(st, FALSE)]
            s2 = st.copy()
            out = []
            if E.le(st, I(len(ip.k)), i.cl) and E.le(st, I(len(ip.k.encode())), i.bl):
                out.append((st, TRUE))
            out.append((s2, FALSE))
            return out
        return unknown_bool(st)
    # predicate: run it on an arbitrary character, result unknown
    s2 = st.copy()
    c = E.newchar(st, i.cs, i.tag)
    out = [(s2, FALSE)]
    for s, v in E.call_value(st, p[1], [c], None):
        for s3, b in E.split_bool(s, v):
            out.append((s3, ("b", b)))
    return out


@model("core::str::<impl str>::find", "core::str::<impl str>::rfind")
def m_find(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    p = pat_of(E, st, a[1], x["args_ty"][0])
    s2 = st.copy()
    out = [(s2, NONE)]
    if p[0] == "char":
        if E.cset(st, p[1]) & i.cs == 0:
            return out
        bits = E.cset(st, p[1]) & i.cs
        cases = [(st,) + E.A.wminmax(bits) + (E.newchar(st, bits, i.tag),)]
    elif p[0] == "str":
        ip = E.S(st, p[1])
        if ip.k is not None:
            n = len(ip.k.encode())
            if E.A.of(ip.k) & ~i.cs:
                return out
            cases = [(st, n, n, ("c", -(ord(ip.k[0]) + 1)) if ip.k else None)]
        else:
            cases = [(st, 0, None, None)]
    else:
        # a predicate: the character found satisfies it
        if not i.cs:
            return out
        cases = []
        ck, sk = ("tmp", E.fresh()), ("tmp", E.fresh())
        st.mem[ck] = E.newchar(st, i.cs, i.tag)
        st.mem[sk] = sv
        for s, v in E.call_value(st, p[1], [st.mem[ck]], None):
            for s3, b in E.split_bool(s, v):
                c = s3.mem.pop(ck)
                sv = s3.mem.pop(sk)
                if b:
                    cases.append((s3,) + E.A.wminmax(E.cset(s3, c)) + (c,))
    for st, wlo, whi, c in cases:
        pos = E.newint(st, 0, None)
        i = E.S(st, sv)
        if E.le(st, pos, i.bl, -wlo):
            bn = set(i.bn) | {pos}
            if wlo == whi:
                bn.add(E.addi(st, pos, I(wlo)))
            st.st[sv[1]] = E.S(st, sv)._replace(bn=frozenset(bn))
            if c is not None:
                E.note_at(st, sv, pos, c)
            out.append((st, SOME(pos)))
    return out


@model("core::str::<impl str>::len", "std::string::String::len")
def m_len(E, st, a, x):
    return [(st, E.S(st, get_s(E, st, a[0])).bl)]


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_isempty(E, st, a, x):
    sv = get_s(E, st, a[0])
    out = []
    for s, b in E.cmp_int(st, "Eq", E.S(st, sv).bl, Z0):
        i = E.S(s, sv)
        if b:
            if E.eqi(s, i.cl, Z0):
                s.st[sv[1]] = i._replace(k="", ex=True, pre=(), suf=())
                out.append((s, TRUE))
        else:
            if E.le(s, I(1), i.cl):
                out.append((s, FALSE))
    return out


@model("core::str::<impl str>::chars")
def m_chars(E, st, a, x):
    return [(st, ("obj", "chars", x["dty"], (get_s(E, st, a[0]), Z0, Z0)))]


@model("core::str::<impl str>::char_indices")
def m_charidx(E, st, a, x):
    return [(st, ("obj", "charidx", x["dty"], (get_s(E, st, a[0]), Z0, Z0, Z0)))]


@model("core::str::<impl str>::bytes", "core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def m_bytes(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    if i.cs & ~E.A.ASCII == 0:
        lo, hi = E.A.minmax(i.cs)
    else:
        lo, hi = 0, 255
    t = ("I", lo or 0, hi if hi is not None else 255)
    seq = ("seq", i.bl, None, t)
    if x["path"].endswith("bytes") and not x["path"].endswith("as_bytes") and not x["path"].endswith("into_bytes"):
        return [(st, ("obj", "intoiter", x["dty"], (seq, Z0, Z0)))]
    if x["path"].endswith("into_bytes"):
        return [(st, seq)]
    return [(st, ("sh", seq))]


@rx(r"std::str::Bytes<.*> as .*Iterator>::next$")
def m_bytes_next(E, st, a, x):
    return m_intoiter_next(E, st, a, x)


@model("std::string::String::as_str", "std::string::String::as_mut_str", "core::str::<impl str>::as_str")
def m_asstr(E, st, a, x):
    return [(st, ("sh", get_s(E, st, a[0])))]


@rx(r"^<std::string::String as std::(ops::Deref>::deref|convert::AsRef<.*>>::as_ref|borrow::Borrow<.*>>::borrow)$")
def m_sderef(E, st, a, x):
    return [(st, ("sh", get_s(E, st, a[0])))]


@rx(r"^<(std::vec::Vec<.*>|\[T; N\]|\[T\]|str|.*) as std::(convert::AsRef<.*>>::as_ref|borrow::Borrow<.*>>::borrow)$|^std::(array|slice|str|vec)::.*(as_ref|borrow)$")
def m_asref(E, st, a, x):
    return [(st, a[0])]


@rx(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|std::vec::Vec::<T, A>::as_(mut_)?slice$|<impl \[T\]>::as_(mut_)?slice$|std::array::<impl \[T; N\]>::as_(mut_)?slice$|^<std::string::String as std::ops::DerefMut>::deref_mut$|<std::boxed::Box<.*> as std::ops::Deref(Mut)?>::deref")
def m_vderef(E, st, a, x):
    if a[0][0] == "sh" and a[0][1][0] == "sh" and "Box" in x["path"]:
        return [(st, a[0][1])]
    return [(st, a[0])]


@model("std::string::String::new", "<std::string::String as std::default::Default>::default", "std::string::String::with_capacity")
def m_snew(E, st, a, x):
    return [(st, E.conststr(st, ""))]


@rx(r"^<std::string::String as std::(clone::Clone>::clone|convert::From<.*>>::from)$|SpecToString>::spec_to_string$|^<.* as std::string::ToString>::to_string$|<impl std::borrow::ToOwned for str>::to_owned$|^<str as std::borrow::ToOwned>::to_owned$|std::str::<impl str>::to_owned|std::str::<impl str>::into_string|^<.*str.* as std::convert::Into<std::string::String>>::into$|<std::string::String as std::str::FromStr>::from_str|std::str::<impl .*ToOwned for str>::to_owned|alloc::str::<impl .*>::to_owned$|std::borrow::Cow::<'_, B>::into_owned$|OsStr::to_string_lossy|Cow<'_, str> as std::ops::Deref>::deref$")
def m_sclone(E, st, a, x):
    v = deref(E, st, a[0])
    if v[0] == "s":
        if x["path"].endswith("::from_str"):
            return [(st, OK(v))]
        if x["path"].endswith("deref"):
            return [(st, ("sh", v))]
        return [(st, v)]
    if v[0] == "c":
        return [(st, charstr(E, st, v))]
    if v[0] == "obj" and v[1] == "cmap":
        return collect_string(E, st, v, None)
    if v[0] == "i":
        lo = E.lb(st, v)
        bits = E.A.DIGIT | (0 if lo is not None and lo >= 0 else E.A.of("-"))
        return [(st, E.newstr(st, bits, 1, 20, 1, 20))]
    if v[0] == "en":
        return [(st, ("sh", get_s(E, st, v)) if x["path"].endswith("deref") else get_s(E, st, v))]
    return [(st, E.newstr(st, E.A.ALL))]


def collect_string(E, st, v, fr):
    """string made of the remaining items of a case mapping object"""
    c, d, pos = v[3]
    bits = E.cset(st, c)
    tag = E.ctag(st, c) & ~RAW
    img, mn, mx = E.A.map(bits, E.A.upimg if d[2] == 1 else E.A.loimg)
    if E.const(st, pos) != 0:
        return [(st, E.newstr(st, img, 0, 12, 0, 3, tag=tag))]
    if mx == 1:
        return [(st, charstr(E, st, E.newchar(st, img, tag)))]
    s = E.newstr(st, img, 1, 12, mn, mx, tag=tag)
    return [(st, s)]


@model("std::string::String::push")
def m_push(E, st, a, x):
    s = get_s(E, st, a[0])
    E.wr(st, a[0], concat(E, st, s, charstr(E, st, a[1])))
    return [(st, UNIT)]


@model("std::string::String::push_str")
def m_pushstr(E, st, a, x):
    s = get_s(E, st, a[0])
    E.wr(st, a[0], concat(E, st, s, get_s(E, st, a[1])))
    return [(st, UNIT)]


@rx(r"^<std::string::String as std::ops::Add<&str>>::add$")
def m_sadd(E, st, a, x):
    return [(st, concat(E, st, get_s(E, st, a[0]), get_s(E, st, a[1])))]


@rx(r"^<std::string::String as std::ops::AddAssign<&str>>::add_assign$")
def m_saddassign(E, st, a, x):
    return m_pushstr(E, st, a, x)


@rx(r"^<std::string::String as std::fmt::Write>::write_(str|char)$")
def m_swrite(E, st, a, x):
    if x["path"].endswith("char"):
        m_push(E, st, a, x)
    else:
        m_pushstr(E, st, a, x)
    return [(st, OK(UNIT))]


@model("std::string::String::pop")
def m_pop(E, st, a, x):
    sv = get_s(E, st, a[0])
    out = []
    for s, e in m_isempty(E, st, [a[0]], x):
        if e == TRUE:
            out.append((s, NONE))
        else:
            sv = get_s(E, s, a[0])
            c = with_suf(E, s, sv, 1)[-1]
            i = E.S(s, sv)
            w = cw(E, s, c)
            if w is not None:
                cut = E.addi(s, i.bl, I(-w))
            else:
                lo, hi = E.A.wminmax(E.cset(s, c))
                cut = E.newint(s, 0, None)
                E.le(s, cut, i.bl, -lo)
                E.le(s, i.bl, cut, hi)
            n = substr_tail(E, s, sv, cut)
            E.wr(s, a[0], n)
            out.append((s, SOME(c)))
    return out


def substr_tail(E, st, sv, cut):
    """string without its last character, of byte length cut"""
    i = E.S(st, sv)
    cl = E.addi(st, i.cl, I(-1))
    bl = cl if i.bl == i.cl else cut
    if i.ex:
        pre = suf = i.pre[:-1]
        ex = True
        ks = [E.A.single(E.cset(st, ch)) for ch in pre]
        if all(k is not None for k in ks) and not i.tag:
            return E.conststr(st, "".join(map(chr, ks)))
    else:
        n = E.lb(st, cl) or 0
        pre = i.pre[:n]
        suf = i.suf[:-1]
        ex = False
    s = E.fresh()
    st.st[s] = SI(bl, cl, i.cs, pre, suf, ex, None, frozenset(b for b in i.bn if E.known_le(st, b, bl)), i.tag, None)
    return ("s", s)


@model("std::string::String::remove")
def m_remove(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    ok = E.known_le(st, a[1], i.bl, -1) and (E.lb(st, a[1]) or 0) >= 0
    E.oblig(st, ok, "string-remove-range", "String::remove")
    if not ok and not E.le(st, a[1], i.bl, -1):
        return []
    E.oblig(st, boundary(E, st, sv, a[1]), "str-boundary", "String::remove")
    k = E.const(st, a[1])
    if k == 0:
        E.le(st, I(1), i.cl)
        c = with_pre(E, st, sv, 1)[0]
        w = cw(E, st, c)
        i = E.S(st, sv)
        if w is None:
            lo, hi = E.A.wminmax(E.cset(st, c))
            cut = E.newint(st, lo, hi)
            E.le(st, cut, i.bl)
            cl = E.addi(st, i.cl, I(-1))
            n = mkstr(E, st, E.subi(st, i.bl, cut), cl, i.cs, i.pre[1:], i.suf[:0] if not i.ex else i.pre[1:], i.ex, tag=i.tag)
        else:
            n = substr(E, st, sv, I(w), i.bl)
        E.wr(st, a[0], n)
        return [(st, c)]
    c = E.newchar(st, i.cs, i.tag)
    cl = E.addi(st, i.cl, I(-1))
    if i.bl == i.cl:
        bl = cl
    else:
        bl = E.newint(st, 0, None)
        E.le(st, bl, i.bl, -1)
        E.le(st, i.bl, bl, 4)
        E.le(st, cl, bl)
    E.wr(st, a[0], mkstr(E, st, bl, cl, i.cs, tag=i.tag))
    return [(st, c)]


@model("std::string::String::insert", "std::string::String::insert_str")
def m_insert(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    ins = charstr(E, st, a[2]) if x["path"].endswith("insert") else get_s(E, st, a[2])
    ok = E.known_le(st, a[1], i.bl) and boundary(E, st, sv, a[1])
    E.oblig(st, ok, "str-boundary", x["path"])
    if not ok and not E.le(st, a[1], i.bl):
        return []
    h = substr(E, st, sv, Z0, a[1])
    t = substr(E, st, sv, a[1], E.S(st, sv).bl)
    E.wr(st, a[0], concat(E, st, concat(E, st, h, ins), t))
    return [(st, UNIT)]


@model("std::string::String::truncate")
def m_truncate(E, st, a, x):
    sv = get_s(E, st, a[0])
    out = []
    for s, ge in E.cmp_int(st, "Le", E.S(st, sv).bl, a[1]):
        if ge:
            out.append((s, UNIT))
            continue
        E.oblig(s, boundary(E, s, sv, a[1]), "str-boundary", "String::truncate")
        E.wr(s, a[0], substr(E, s, sv, Z0, a[1]))
        out.append((s, UNIT))
    return out


@model("std::string::String::clear")
def m_sclear(E, st, a, x):
    E.wr(st, a[0], E.conststr(st, ""))
    return [(st, UNIT)]


@model("std::string::String::reserve", "std::vec::Vec::<T, A>::reserve", "std::string::String::shrink_to_fit", "std::vec::Vec::<T, A>::shrink_to_fit", "std::intrinsics::cold_path", "std::hint::unreachable_unchecked::precondition_check", "std::mem::drop", "std::mem::forget")
def m_nop(E, st, a, x):
    return [(st, UNIT)]


@model("std::string::String::replace_range")
def m_replace_range(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    r = range_of(E, st, deref(E, st, a[1]), x["args_ty"][0], i.bl)
    if r is None:
        E.oblig(st, False, "str-range", "replace_range")
        E.wr(st, a[0], E.newstr(st, E.A.ALL))
        return [(st, UNIT)]
    s, e = r[0], incl_end(E, st, r[1], "replace_range")
    w = get_s(E, st, a[2])
    ok = E.known_le(st, s, e) and E.known_le(st, e, i.bl) and (E.lb(st, s) or 0) >= 0
    E.oblig(st, ok, "str-range", "replace_range")
    if not ok and not (E.le(st, s, e) and E.le(st, e, i.bl)):
        return []
    E.oblig(st, boundary(E, st, sv, s) and boundary(E, st, sv, e), "str-boundary", "replace_range")
    h = substr(E, st, sv, Z0, s)
    t = substr(E, st, sv, e, E.S(st, sv).bl)
    E.wr(st, a[0], concat(E, st, concat(E, st, h, w), t))
    return [(st, UNIT)]


@model("std::string::String::drain")
def m_sdrain(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    r = range_of(E, st, deref(E, st, a[1]), x["args_ty"][0], i.bl)
    if r is None:
        return None
    s, e = r[0], incl_end(E, st, r[1], "drain")
    ok = E.known_le(st, s, e) and E.known_le(st, e, i.bl)
    E.oblig(st, ok and boundary(E, st, sv, s) and boundary(E, st, sv, e), "str-range", "String::drain")
    if not ok and not (E.le(st, s, e) and E.le(st, e, i.bl)):
        return []
    h = substr(E, st, sv, Z0, s)
    m = substr(E, st, sv, s, e)
    t = substr(E, st, sv, e, E.S(st, sv).bl)
    E.wr(st, a[0], concat(E, st, h, t))
    return [(st, ("obj", "chars", None, (m, Z0, Z0)))]


def replaced(E, st, sv, pat, to, n=None):
    """string after replacing occurrences of pattern (n: at most n times)"""
    i = E.S(st, sv)
    it = E.S(st, to)
    A = E.A
    if pat[0] == "str":
        ip = E.S(st, pat[1])
        raw_str(E, st, i, ip, "replace")
        if ip.k is None:
            return E.newstr(st, i.cs | it.cs, tag=i.tag | it.tag)
        if A.of(ip.k) & ~i.cs and ip.k:
            return sv
        if i.k is not None and it.k is not None and (len(i.k) <= KLIM):
            return E.conststr(st, i.k.replace(ip.k, it.k, -1 if n is None else n))
        pb, pc = len(ip.k.encode()), len(ip.k)
        single = A.of(ip.k) if len(ip.k) == 1 else 0
        pbits = [A.c(ord(c)) for c in ip.k]
    elif pat[0] == "char":
        bits = E.cset(st, pat[1])
        if i.tag:
            h = E.hooks.get("raw_test")
            if h:
                h(E, st, i.cs, bits, "replace")
        if bits & i.cs == 0:
            return sv
        k = A.single(bits)
        if k is None:
            return E.newstr(st, i.cs | it.cs, tag=i.tag | it.tag)
        if i.k is not None and it.k is not None:
            return E.conststr(st, i.k.replace(chr(k), it.k, -1 if n is None else n))
        pb, pc = len(chr(k).encode()), 1
        single = bits
        pbits = [bits]
    elif pat[0] == "set" and pat[2]:
        if i.tag:
            h = E.hooks.get("raw_test")
            if h:
                h(E, st, i.cs, pat[1], "replace")
        if pat[1] & i.cs == 0:
            return sv
        lo, hi = A.wminmax(pat[1] & i.cs)
        single = pat[1]
        pbits = [pat[1]]
        pc = 1
        pb = lo if lo == hi else None
    else:
        return E.newstr(st, i.cs | it.cs, tag=i.tag | it.tag)
    # characters of the pattern can only be deleted for sure when it is a single
    # character and every occurrence is replaced
    cs = i.cs
    if single and n is None:
        cs &= ~single
    cs |= it.cs
    tb, tc = E.const(st, it.bl), E.const(st, it.cl)
    # prefix / suffix knowledge survives when the pattern cannot touch it
    def rel(old, new, delta):
        pass

    def length(old, p, q):
        if p is None or q is None:
            return E.newint(st, 0, SMAX)
        if p == q:
            return old
        r = E.newint(st, 0, SMAX)
        if q < p:
            E.le(st, r, old)
            if q > 0 and (E.lb(st, old) or 0) >= 1:
                E.le(st, I(1), r)
            if n is not None:
                E.le(st, old, r, (p - q) * n)
        else:
            E.le(st, old, r)
            if n is not None:
                E.le(st, r, old, (q - p) * n)
        return r

    bl = length(i.bl, pb, tb)
    cl = bl if (cs | i.cs) & ~A.ASCII == 0 and i.bl == i.cl else length(i.cl, pc, tc)
    pre, suf = (), ()
    if i.pre and E.cset(st, i.pre[0]) & pbits[0] == 0 and not i.ex:
        pre = i.pre[:1]
    if i.suf and E.cset(st, i.suf[-1]) & pbits[-1] == 0 and not i.ex and n is None:
        suf = i.suf[-1:]
    if bl != cl:
        E.le(st, cl, bl)
    s = E.fresh()
    st.st[s] = SI(bl, cl, cs, pre, suf, False, None, frozenset(), i.tag | it.tag, None)
    if cs & ~A.ASCII == 0 and bl != cl:
        E.eqi(st, bl, cl)
        st.st[s] = st.st[s]._replace(bl=cl)
    return ("s", s)


@model("std::str::<impl str>::replace", "std::str::<impl str>::replacen")
def m_replace(E, st, a, x):
    sv = get_s(E, st, a[0])
    pat = pat_of(E, st, a[1], x["args_ty"][0])
    to = get_s(E, st, a[2])
    n = None
    if x["path"].endswith("replacen"):
        n = E.const(st, a[3])
        if n is None:
            n = 1 << 40
    return [(st, replaced(E, st, sv, fn_pat(E, st, pat, E.S(st, sv)), to, n))]


def casemap(E, st, sv, up):
    i = E.S(st, sv)
    A = E.A
    img, mn, mx = A.map(i.cs, A.upimg if up else A.loimg)
    if i.k is not None and i.cs & ~A.ASCII == 0:
        return E.conststr(st, i.k.upper() if up else i.k.lower())
    ascii_only = i.cs & ~A.ASCII == 0
    tagm = 0
    pre = []
    for c in i.pre:
        b, n1, n2 = A.map(E.cset(st, c), A.upimg if up else A.loimg)
        if n2 != 1:
            break
        pre.append(E.newchar(st, b, E.ctag(st, c) & ~RAW))
    suf = []
    for c in reversed(i.suf):
        b, n1, n2 = A.map(E.cset(st, c), A.upimg if up else A.loimg)
        if n2 != 1:
            break
        suf.insert(0, E.newchar(st, b, E.ctag(st, c) & ~RAW))
    if mx == 1:
        cl = i.cl
    else:
        cl = E.newint(st, 0, SMAX)
        E.le(st, i.cl, cl)
    if ascii_only:
        bl = cl
    elif img & ~A.ASCII == 0:
        bl = cl
    else:
        bl = E.newint(st, 0, SMAX)
        E.le(st, cl, bl)
        if (E.lb(st, i.bl) or 0) >= 1:
            E.le(st, I(1), bl)
    ex = i.ex and len(pre) == len(i.pre) and mx == 1
    s = E.fresh()
    st.st[s] = SI(bl, cl, img, tuple(pre), tuple(pre if ex else suf), ex, None, frozenset(), i.tag & ~RAW, None)
    return ("s", s)


@model("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase")
def m_strcase(E, st, a, x):
    sv = get_s(E, st, a[0])
    up = "upper" in x["path"]
    if "ascii" in x["path"]:
        i = E.S(st, sv)
        f = E.A.to_ascii_upper if up else E.A.to_ascii_lower
        pre = tuple(E.newchar(st, f(E.cset(st, c)), E.ctag(st, c) & ~RAW) for c in i.pre)
        suf = pre if i.ex else tuple(E.newchar(st, f(E.cset(st, c)), E.ctag(st, c) & ~RAW) for c in i.suf)
        s = E.fresh()
        st.st[s] = SI(i.bl, i.cl, f(i.cs), pre, suf, i.ex, None if i.k is None else "".join(ch.upper() if up and ch < "\x80" else ch.lower() if not up and ch < "\x80" else ch for ch in i.k), i.bn, i.tag & ~RAW, None)
        return [(st, ("s", s))]
    return [(st, casemap(E, st, sv, up))]


@rx(r"<impl str>::make_ascii_(upper|lower)case$")
def m_makecase(E, st, a, x):
    r = m_strcase(E, st, a, {"path": "to_ascii_upper" if "upper" in x["path"] else "to_ascii_lower"})
    E.wr(st, a[0], r[0][1])
    return [(st, UNIT)]


@model("core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end")
def m_trim(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    ws = E.A.cls["whitespace"]
    if i.cs & ws == 0:
        return [(st, ("sh", sv))]
    if i.k is not None:
        k = i.k.strip() if x["path"].endswith("trim") else i.k.lstrip() if x["path"].endswith("start") else i.k.rstrip()
        return [(st, ("sh", E.conststr(st, k)))]
    out = []
    cl = E.newint(st, 0, SMAX)
    E.le(st, cl, i.cl)
    if i.bl == i.cl:
        bl = cl
    else:
        bl = E.newint(st, 0, SMAX)
        E.le(st, bl, i.bl)
        E.le(st, cl, bl)
    s = E.fresh()
    st.st[s] = SI(bl, cl, i.cs, (), (), False, None, frozenset(), i.tag, None)
    if x["path"].endswith("_end"):
        st.st[sv[1]] = i._replace(bn=i.bn | {bl})
    elif x["path"].endswith("_start"):
        st.st[sv[1]] = i._replace(bn=i.bn | {E.subi(st, i.bl, bl)})
    return [(st, ("sh", ("s", s)))]


@rx(r"<impl str>::trim_(start_|end_|)matches$|<impl str>::trim_(left|right)")
def m_trimm(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    cl = E.newint(st, 0, SMAX)
    E.le(st, cl, i.cl)
    bl = cl if i.bl == i.cl else E.newint(st, 0, SMAX)
    E.le(st, bl, i.bl)
    E.le(st, cl, bl)
    s = E.fresh()
    st.st[s] = SI(bl, cl, i.cs, (), (), False, None, frozenset(), i.tag, None)
    if "end" in x["path"] or "right" in x["path"]:
        st.st[sv[1]] = i._replace(bn=i.bn | {bl})
    elif "start" in x["path"] or "left" in x["path"]:
        st.st[sv[1]] = i._replace(bn=i.bn | {E.subi(st, i.bl, bl)})
    p = pat_of(E, st, a[1], x["args_ty"][0]) if x["args_ty"] else ("?",)
    p = fn_pat(E, st, p, i)
    if p[0] == "char" and E.A.single(E.cset(st, p[1])) is not None or p[0] == "set" and p[2]:
        bits = E.cset(st, p[1]) if p[0] == "char" else p[1]
        if "start" in x["path"] or "end" in x["path"]:
            # result is empty or its first/last character is outside the set
            s2 = st.copy()
            out = []
            if E.eqi(s2, cl, Z0):
                s2.st[s] = s2.st[s]._replace(k="", ex=True)
                out.append((s2, ("sh", ("s", s))))
            if i.cs & ~bits and E.le(st, I(1), cl):
                E.le(st, I(1), bl)
                c = E.newchar(st, i.cs & ~bits, i.tag)
                if "start" in x["path"]:
                    st.st[s] = st.st[s]._replace(pre=(c,))
                else:
                    st.st[s] = st.st[s]._replace(suf=(c,))
                out.append((st, ("sh", ("s", s))))
            return out
    elif p[0] == "fn":
        c = E.newchar(st, i.cs, i.tag)
        E.call_value(st.copy(), p[1], [c], None)
    return [(st, ("sh", ("s", s)))]


@model("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix")
def m_strip(E, st, a, x):
    end = x["path"].endswith("suffix")
    y = dict(x, path="core::str::<impl str>::" + ("ends_with" if end else "starts_with"))
    sv = get_s(E, st, a[0])
    p = pat_of(E, st, a[1], x["args_ty"][0])
    out = []
    for s, b in m_affix(E, st, a, y):
        if b == FALSE:
            out.append((s, NONE))
            continue
        i = E.S(s, sv)
        if p[0] == "str":
            n = E.S(s, p[1]).bl
        else:
            c = i.suf[-1] if end else i.pre[0]
            w = cw(E, s, c)
            n = I(w) if w else E.newint(s, 1, 4)
        if end:
            r = substr(E, s, sv, Z0, E.subi(s, i.bl, n))
        else:
            r = substr(E, s, sv, n, i.bl)
        out.append((s, SOME(("sh", r))))
    return out


@model("core::str::<impl str>::split_at", "core::str::<impl str>::split_at_checked")
def m_split_at(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    ok = E.known_le(st, a[1], i.bl) and boundary(E, st, sv, a[1])
    chk = x["path"].endswith("checked")
    if not chk:
        E.oblig(st, ok, "str-boundary", "split_at")
    out = []
    if chk and not ok:
        out.append((st.copy(), NONE))
    if E.le(st, a[1], i.bl):
        h = substr(E, st, sv, Z0, a[1])
        t = substr(E, st, sv, a[1], E.S(st, sv).bl)
        v = ("agg", (("sh", h), ("sh", t)))
        out.append((st, SOME(v) if chk else v))
    return out


@model("core::str::<impl str>::is_char_boundary")
def m_iscb(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    if E.known_le(st, a[1], i.bl) and boundary(E, st, sv, a[1]):
        return [(st, TRUE)]
    s2 = st.copy()
    out = []
    # offset 0 is a boundary, and so is the end
    if E.le(s2, I(1), a[1]):
        if E.known_le(s2, a[1], i.bl):
            E.le(s2, a[1], i.bl, -1)
        out.append((s2, FALSE))
    if E.le(st, a[1], i.bl):
        st.st[sv[1]] = i._replace(bn=i.bn | {a[1]})
        out.append((st, TRUE))
    return out


@model("core::str::<impl str>::get", "core::str::<impl str>::get_mut")
def m_strget(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    r = range_of(E, st, deref(E, st, a[1]), x["args_ty"][0], i.bl)
    if r is None:
        return None
    s, e = r
    if e[0] == "incl":
        e = E.addi(st, e[1], I(1))
    out = []
    ok = E.known_le(st, s, e) and E.known_le(st, e, i.bl) and boundary(E, st, sv, s) and boundary(E, st, sv, e)
    if not ok:
        out.append((st.copy(), NONE))
    if E.le(st, s, e) and E.le(st, e, i.bl):
        j = E.S(st, sv)
        bn = j.bn | {s, e}
        st.st[sv[1]] = j._replace(bn=frozenset(b for b in bn if b[1] or b[2]))
        out.append((st, SOME(("sh", substr(E, st, sv, s, e)))))
    return out


@rx(r"^core::str::traits::<impl std::ops::Index<I> for str>::index$|^<std::string::String as std::ops::Index<I>>::index$|^<std::string::String as std::ops::Index<.*>>::index$")
def m_strindex(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    rty = x["args_ty"][-1]
    r = range_of(E, st, deref(E, st, a[1]), rty, i.bl)
    if r is None:
        E.oblig(st, False, "str-range", "index")
        return [(st, ("sh", E.newstr(st, i.cs, tag=i.tag)))]
    s, e = r[0], incl_end(E, st, r[1], "index")
    v = str_index(E, st, sv, s, e, "index")
    return [(st, ("sh", v))] if v is not None else []


@rx(r"(PartialEq.*>::|<impl .*PartialEq.* for .*>::)(eq|ne)$")
def m_peq(E, st, a, x):
    p = x["path"]
    va, vb = deref(E, st, a[0]), deref(E, st, a[1])
    ne = p.endswith("::ne")
    if va[0] == "s" or vb[0] == "s":
        r = str_eq(E, st, get_s(E, st, va), get_s(E, st, vb))
        return [(s, ("b", b != ne)) for s, b in r]
    if va[0] == "c" and vb[0] == "c":
        return [(s, ("b", b != ne)) for s, b in E.char_eq(st, va, vb)]
    if va[0] == "seq" and vb[0] == "seq":
        if va[2] is not None and vb[2] is not None and len(va[2]) == len(vb[2]) <= 8:
            return seq_eq(E, st, list(zip(va[2], vb[2])), ne)
        u, l = E.ub(st, va[1], vb[1]), E.lb(st, va[1], vb[1])
        if u is not None and u < 0 or l is not None and l > 0:
            return [(st, ("b", ne))]
        return unknown_bool(st)
    if va[0] == "obj" or vb[0] == "obj":
        return unknown_bool(st)
    if va[0] in ("i", "b", "bz") and vb[0] in ("i", "b", "bz"):
        return [(s, ("b", b != ne)) for s, b in E.compare(st, "Eq", va, vb)]
    if x["f"] is not None and "blocks" in x["f"]:
        return None
    if ne and x["f"] is not None:
        return unknown_bool(st)
    return unknown_bool(st)


def seq_eq(E, st, pairs, ne):
    out = []
    work = [(st, 0)]
    while work:
        s, n = work.pop()
        if n == len(pairs):
            out.append((s, ("b", not ne)))
            continue
        p, q = pairs[n]
        p, q = deref(E, s, p), deref(E, s, q)
        if p[0] == "c" and q[0] == "c":
            rs = E.char_eq(s, p, q)
        elif p[0] == "s" and q[0] == "s":
            rs = str_eq(E, s, p, q)
        elif p[0] in ("i", "b", "bz") and q[0] in ("i", "b", "bz"):
            rs = E.compare(s, "Eq", p, q)
        else:
            s2 = s.copy()
            rs = [(s, True), (s2, False)]
        for s2, b in rs:
            if b:
                work.append((s2, n + 1))
            else:
                out.append((s2, ("b", ne)))
    return out


@rx(r"(std::cmp::Ord.*>::|<impl std::cmp::(Partial)?Ord.* for .*>::|std::cmp::PartialOrd.*>::)(cmp|partial_cmp)$")
def m_cmp(E, st, a, x):
    va, vb = deref(E, st, a[0]), deref(E, st, a[1])
    part = x["path"].endswith("partial_cmp")
    if va[0] in ("i", "c") and vb[0] == va[0]:
        out = []
        for s, lt in E.compare(st, "Lt", va, vb):
            if lt:
                out.append((s, ("en", ((0, ()),))))
            else:
                for s2, e in E.compare(s, "Eq", va, vb):
                    out.append((s2, ("en", ((1 if e else 2, ()),))))
        return [(s, SOME(v) if part else v) for s, v in out]
    if x["f"] is not None and "blocks" in x["f"]:
        return None
    v = ("en", ((0, ()), (1, ()), (2, ())))
    return [(st, ("en", ((0, ()), (1, (v,)))) if part else v)]


# integer helpers -----------------------------------------------------------
@rx(r"core::num::<impl \w+>::(checked_add|checked_sub|saturating_add|saturating_sub|wrapping_add|wrapping_sub|abs_diff|overflowing_add|overflowing_sub|pow|abs|unsigned_abs|checked_mul|saturating_mul|div_ceil|rem_euclid|is_power_of_two|leading_zeros|count_ones)$|^std::cmp::(Ord::)?(min|max)$|std::cmp::impls::<impl std::cmp::Ord for \w+>::(min|max)$|^std::cmp::(min|max)$")
def m_intop(E, st, a, x):
    op = x["path"].split("::")[-1]
    va = [E.as_int(st, deref(E, st, v)) for v in a]
    if any(v is None for v in va):
        if op in ("min", "max") and len(a) == 2:
            s2 = st.copy()
            return [(st, a[0]), (s2, a[1])]
        return None
    dty = x["dty"]
    m = re.search(r"<impl (\w+)>", x["path"])
    lo, hi = 0, (1 << 64) - 1
    if m:
        n = m.group(1)
        bits = 64 if n.endswith("size") else int(n[1:])
        lo, hi = (0, (1 << bits) - 1) if n[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    p = va[0]
    q = va[1] if len(va) > 1 else None
    if op == "min":
        return [(s, p if b else q) for s, b in E.cmp_int(st, "Le", p, q)]
    if op == "max":
        return [(s, q if b else p) for s, b in E.cmp_int(st, "Le", p, q)]
    if op == "abs_diff":
        return [(s, E.subi(s, q, p) if b else E.subi(s, p, q)) for s, b in E.cmp_int(st, "Le", p, q)]
    if op in ("checked_add", "saturating_add", "wrapping_add"):
        r = E.addi(st, p, q)
        u = E.ub(st, r)
        if u is not None and u <= hi and (E.lb(st, r) is not None and E.lb(st, r) >= lo):
            return [(st, SOME(r) if op == "checked_add" else r)]
        s2 = st.copy()
        if op == "checked_add":
            return [(st, SOME(r)), (s2, NONE)]
        if op == "saturating_add":
            c = E.newint(s2, None, None)
            E.le(s2, p, c)
            E.le(s2, q, c)
            if lo == 0:
                E.le(s2, Z0, c)
            return [(s2, c)]
        return [(s2, E.newint(s2, lo, hi))]
    if op in ("checked_sub", "saturating_sub", "wrapping_sub") and lo == 0:
        out = []
        for s, b in E.cmp_int(st, "Le", q, p):
            if b:
                r = E.subi(s, p, q)
                out.append((s, SOME(r) if op == "checked_sub" else r))
            else:
                out.append((s, NONE if op == "checked_sub" else Z0 if op == "saturating_sub" else E.newint(s, lo, hi)))
        return out
    if op in ("checked_sub", "checked_mul"):
        r = E.subi(st, p, q) if op == "checked_sub" else E.newint(st, lo, hi)
        s2 = st.copy()
        return [(st, SOME(r)), (s2, NONE)]
    if op == "abs":
        return [(st, E.newint(st, 0, hi))]
    if op == "unsigned_abs":
        return [(s, p if b else E.subi(s, Z0, p)) for s, b in E.cmp_int(st, "Le", Z0, p)]
    if op == "saturating_sub":
        return [(st, E.newint(st, lo, hi))]
    if op == "pow":
        E.oblig(st, False, "overflow:pow", "pow")
    if dty is not None and E.T[dty]["k"] == "int":
        l, h = E.intrange(dty)
        return [(st, E.newint(st, l, h))]
    return None


# characters ----------------------------------------------------------------
def width_var(E, st, c):
    if c[1] > 0:
        for w, k in st.cw.items():
            if k == c:
                return ("i", w, 0)
    lo, hi = E.A.wminmax(E.cset(st, c))
    w = E.newint(st, lo, hi)
    if c[1] > 0:
        st.cw[w[1]] = c
    return w


CLASS = {
    "is_alphabetic": "alphabetic", "is_lowercase": "lowercase", "is_uppercase": "uppercase", "is_numeric": "numeric", "is_whitespace": "whitespace", "is_control": "control",
    "is_alphanumeric": "alphanumeric", "is_ascii": "ascii", "is_ascii_uppercase": "ascii_uppercase", "is_ascii_lowercase": "ascii_lowercase", "is_ascii_alphabetic": "ascii_alphabetic",
    "is_ascii_digit": "ascii_digit", "is_ascii_alphanumeric": "ascii_alphanumeric", "is_ascii_whitespace": "ascii_whitespace", "is_ascii_control": "ascii_control", "is_ascii_punctuation": "ascii_punctuation",
    "is_ascii_graphic": "ascii_graphic",
}


@rx(r"(std::char::methods|core::char::methods)::<impl char>::\w+$")
def m_char(E, st, a, x):
    op = x["path"].split("::")[-1]
    A = E.A
    if op in CLASS:
        c = get_c(E, st, a[0])
        return [(s, ("b", b)) for s, b in E.char_in(st, c, A.cls[CLASS[op]], op)]
    if op in ("to_ascii_uppercase", "to_ascii_lowercase"):
        c = get_c(E, st, a[0])
        f = A.to_ascii_upper if "upper" in op else A.to_ascii_lower
        bits = E.cset(st, c)
        n = f(bits)
        tag = E.ctag(st, c) & ~RAW
        if n == bits and tag == E.ctag(st, c):
            return [(st, c)]
        inv = (A.LOWER if "upper" in op else A.UPPER)
        if bits & inv == 0 and not E.ctag(st, c):
            return [(st, c)]
        r = E.newchar(st, n, tag)
        return [(st, r)]
    if op in ("make_ascii_uppercase", "make_ascii_lowercase"):
        c = get_c(E, st, a[0])
        f = A.to_ascii_upper if "upper" in op else A.to_ascii_lower
        E.wr(st, a[0], E.newchar(st, f(E.cset(st, c)), E.ctag(st, c) & ~RAW))
        return [(st, UNIT)]
    if op == "eq_ignore_ascii_case":
        c, d = get_c(E, st, a[0]), get_c(E, st, a[1])
        k = A.single(E.cset(st, d))
        if k is None:
            return unknown_bool(st)
        s = chr(k)
        bits = A.c(k)
        if s.isascii() and s.isalpha():
            bits = A.of(s.lower() + s.upper())
        return [(s2, ("b", b)) for s2, b in E.char_in(st, c, bits, op)]
    if op in ("to_uppercase", "to_lowercase"):
        return [(st, ("obj", "cmap", x["dty"], (get_c(E, st, a[0]), I(1 if "upper" in op else 0), Z0)))]
    if op == "len_utf8":
        c = get_c(E, st, a[0])
        lo, hi = A.wminmax(E.cset(st, c))
        w = next((v for v, d in st.cw.items() if d == c), None)
        if w is None:
            if lo == hi:
                return [(st, I(lo))]
            w = width_var(E, st, c)[1]
            for sid, j in list(st.st.items()):
                if j.pre and j.pre[0] == c and not j.ex:
                    E.le(st, ("i", w, 0), j.bl)
                    st.st[sid] = j = j._replace(bn=j.bn | {("i", w, 0)})
                if j.suf and j.suf[-1] == c and not j.ex:
                    E.le(st, ("i", w, 0), j.bl)
                    p = E.subi(st, j.bl, ("i", w, 0))
                    E.le(st, Z0, p)
                    st.st[sid] = j = j._replace(bn=j.bn | {p})
                if j.ex and len(j.pre) == 1 and j.pre[0] == c:
                    E.eqi(st, j.bl, ("i", w, 0))
        elif lo == hi:
            E.eqi(st, ("i", w, 0), I(lo))
        return [(st, ("i", w, 0))]
    if op in ("is_digit", "to_digit") and E.const(st, a[1]) is not None:
        r = E.const(st, a[1])
        c = get_c(E, st, a[0])
        digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:r]
        out = []
        for s, b in E.char_in(st, c, A.of(digs + digs.upper()), op):
            out.append((s, ("b", b) if op == "is_digit" else (SOME(E.newint(s, 0, r - 1)) if b else NONE)))
        return out
    return None


@model("std::char::methods::<impl char>::from_u32", "std::char::methods::<impl char>::from_digit", "std::char::from_u32", "std::char::from_digit")
def m_fromu32(E, st, a, x):
    s2 = st.copy()
    v = E.as_int(st, a[0])
    bits = E.A.ALL
    if v is not None:
        if "digit" not in x["path"] and v[1] in st.ci and v[2] == 0:
            return [(st, SOME(st.ci[v[1]]))]
        lo, hi = E.lb(st, v), E.ub(st, v)
        if "digit" in x["path"]:
            k = E.const(st, a[1]) or 36
            ok = hi is not None and hi < k
            bits = E.A.of("0123456789abcdefghijklmnopqrstuvwxyz"[:k])
            return [(st, SOME(E.newchar(st, bits)))] if ok else [(st, SOME(E.newchar(st, bits))), (s2, NONE)]
        if lo is not None and hi is not None and lo >= 0 and hi < 0xD800:
            return [(st, SOME(E.newchar(st, E.A.rng(lo, hi))))]
    return [(st, SOME(E.newchar(st, bits))), (s2, NONE)]


@rx(r"^<char as std::convert::From<u8>>::from$|<impl std::convert::From<u8> for char>::from$")
def m_charfromu8(E, st, a, x):
    v = E.as_int(st, a[0])
    if v[1] in st.ci and v[2] == 0:
        return [(st, st.ci[v[1]])]
    lo, hi = E.lb(st, v), E.ub(st, v)
    return [(st, E.newchar(st, E.A.rng(max(0, lo or 0), min(255, 255 if hi is None else hi))))]


@rx(r"<impl std::convert::From<char> for u(32|64|128)>::from$|<u(32|64|128) as std::convert::From<char>>::from$")
def m_u32fromchar(E, st, a, x):
    return [(st, E.cast(st, "IntToInt", get_c(E, st, a[0]), None, x["dty"]))]


@rx(r"<impl std::convert::From<\w+> for (u|i)(\d+|size)>::from$|<(u|i)(\d+|size) as std::convert::From<\w+>>::from$")
def m_intfrom(E, st, a, x):
    v = E.as_int(st, a[0])
    return [(st, v)] if v is not None else None


@rx(r"^<std::char::To(Upper|Lower)case as std::iter::Iterator>::next$")
def m_cmapnext(E, st, a, x):
    o = deref(E, st, a[0])
    if o[0] != "obj":
        return None
    c, d, pos = o[3]
    img, mn, mx = E.A.map(E.cset(st, c), E.A.upimg if d[2] == 1 else E.A.loimg)
    p = E.const(st, pos)
    if p == 0:
        E.wr(st, a[0], ("obj", "cmap", o[2], (c, d, I(1))))
        bits = E.cset(st, c)
        out = E.newchar(st, img, E.ctag(st, c) & ~RAW)
        if img == bits and not E.ctag(st, c):
            out = c
        return [(st, SOME(out))]
    if p is not None and p < mn:
        E.wr(st, a[0], ("obj", "cmap", o[2], (c, d, I(p + 1))))
        return [(st, SOME(E.newchar(st, img, E.ctag(st, c) & ~RAW)))]
    if p is not None and p >= mx:
        return [(st, NONE)]
    s2 = st.copy()
    E.wr(st, a[0], ("obj", "cmap", o[2], (c, d, I(p + 1) if p is not None else E.newint(st, 1, 3))))
    return [(st, SOME(E.newchar(st, img, E.ctag(st, c) & ~RAW))), (s2, NONE)]


# ----------------------------------------------------------- string iterators
def chars_next(E, st, a, front=True, idx=False):
    o = deref(E, st, a[0])
    if o[0] == "top":
        s2 = st.copy()
        c = E.newchar(st, E.A.ALL)
        return [(st, SOME(c)), (s2, NONE)]
    if o[0] != "obj" or o[1] not in ("chars", "charidx"):
        return None
    idx = o[1] == "charidx"
    sv = o[3][0]
    f, b = o[3][1], o[3][2]
    i = E.S(st, sv)
    ev = E.hooks.get("next")
    used = E.addi(st, f, b)
    out = []
    # exhausted
    s0 = st.copy()
    kf = E.const(st, f)
    kb = E.const(st, b)
    can_end = True
    if i.ex:
        if kf is not None and kb is not None:
            can_end = kf + kb >= len(i.pre)
    elif kf is not None and kb is not None and kf + kb < max(len(i.pre), len(i.suf)):
        can_end = False
    if can_end and E.eqi(s0, i.cl, used):
        j = E.S(s0, sv)
        if kf is not None and kb == 0 and kf == len(j.pre) and not j.ex:
            s0.st[sv[1]] = j._replace(ex=True, suf=j.pre)
            refresh_k(E, s0, sv)
        if idx:
            if kb == 0:
                E.eqi(s0, o[3][3], j.bl)
        out.append((s0, NONE))
    # one more character
    if E.le(st, used, i.cl, -1):
        if front:
            if kf is not None and kf < len(i.pre):
                c = i.pre[kf]
            elif kf is not None and kf == len(i.pre) and kf < 4 and not i.ex:
                c = with_pre(E, st, sv, kf + 1)[kf]
            elif i.ex:
                bits = 0
                for q in i.pre:
                    bits |= E.cset(st, q)
                if not i.pre:
                    return out
                c = E.newchar(st, bits, i.tag)
            else:
                c = E.newchar(st, i.cs, i.tag)
        else:
            if kb is not None and kb < len(i.suf):
                c = i.suf[-1 - kb]
            elif kb is not None and kb == len(i.suf) and kb < 4 and not i.ex:
                c = with_suf(E, st, sv, kb + 1)[0]
            else:
                c = E.newchar(st, i.cs, i.tag)
        i = E.S(st, sv)
        E.le(st, I(1), i.bl)
        nf = E.addi(st, f, I(1)) if front else f
        nb = b if front else E.addi(st, b, I(1))
        if idx:
            bo = o[3][3]
            if front:
                lo, hi = E.A.wminmax(E.cset(st, c))
                if not E.le(st, bo, i.bl, -lo):
                    return out
                if i.bl == i.cl:
                    E.eqi(st, bo, f)
                    nbo = nf
                elif lo == hi:
                    nbo = E.addi(st, bo, I(lo))
                else:
                    nbo = E.addi(st, bo, width_var(E, st, c))
                    E.le(st, nbo, i.bl)
                E.le(st, f, bo)
                if E.const(st, f) != 0:
                    pass
                i = E.S(st, sv)
                st.st[sv[1]] = i._replace(bn=frozenset(x for x in i.bn | {bo + f[1:3], nbo + nf[1:3]} if x[1] or x[2]))
                E.note_at(st, sv, bo, c)
                E.wr(st, a[0], ("obj", "charidx", o[2], (sv, nf, nb, nbo)))
                item = ("agg", (bo, c))
            else:
                p = E.newint(st, 0, None)
                E.le(st, p, i.bl, -1)
                i = E.S(st, sv)
                st.st[sv[1]] = i._replace(bn=i.bn | {p})
                E.note_at(st, sv, p, c)
                E.wr(st, a[0], ("obj", "charidx", o[2], (sv, nf, nb, o[3][3])))
                item = ("agg", (p, c))
        else:
            E.wr(st, a[0], ("obj", "chars", o[2], (sv, nf, nb)))
            item = c
        if ev:
            ev(E, st, sv, c)
        out.append((st, SOME(item)))
    return out


def refresh_k(E, st, sv):
    i = E.S(st, sv)
    if i.ex and i.k is None:
        ks = [E.A.single(E.cset(st, c)) for c in i.pre]
        if all(k is not None for k in ks):
            st.st[sv[1]] = i._replace(k="".join(map(chr, ks)))


@rx(r"^<std::str::(Chars|CharIndices)<'a> as std::iter::Iterator>::next$|^<std::string::Drain<'_> as std::iter::Iterator>::next$")
def m_chars_next(E, st, a, x):
    return chars_next(E, st, a, True)


@rx(r"^<std::str::(Chars|CharIndices)<'a> as std::iter::DoubleEndedIterator>::next_back$")
def m_chars_next_back(E, st, a, x):
    return chars_next(E, st, a, False)


@rx(r"^<std::str::(Chars|CharIndices)<'a> as std::iter::Iterator>::last$")
def m_chars_last(E, st, a, x):
    c = E.cell(st, a[0])
    return chars_next(E, st, [("mu", ((c, ()),))], False)


@rx(r"^<std::str::Chars<'a> as std::iter::Iterator>::count$")
def m_chars_count(E, st, a, x):
    o = a[0]
    if o[0] == "obj":
        sv, f, b = o[3][:3]
        return [(st, E.subi(st, i_cl(E, st, sv), E.addi(st, f, b)))]
    return [(st, E.newint(st, 0, SMAX))]


@rx(r"^std::str::Chars::<'a>::as_str$|^std::str::CharIndices::<'a>::as_str$")
def m_chars_asstr(E, st, a, x):
    o = deref(E, st, a[0])
    if o[0] != "obj":
        return None
    sv, f, b = o[3][:3]
    i = E.S(st, sv)
    kf, kb = E.const(st, f), E.const(st, b)
    if kb == 0 and kf is not None and kf <= len(i.pre):
        w = 0
        for c in i.pre[:kf]:
            q = cw(E, st, c)
            if q is None:
                w = None
                break
            w += q
        if w is not None:
            return [(st, ("sh", substr(E, st, sv, I(w), i.bl)))]
        # unknown width of the skipped prefix
        cut = E.newint(st, 0, None)
        E.le(st, cut, i.bl)
        cl = E.addi(st, i.cl, I(-kf))
        bl = E.subi(st, i.bl, cut)
        s = E.fresh()
        st.st[s] = SI(bl, cl, i.cs, i.pre[kf:], i.pre[kf:] if i.ex else (), i.ex, None, frozenset(), i.tag, None)
        return [(st, ("sh", ("s", s)))]
    cl = E.subi(st, i.cl, E.addi(st, f, b))
    bl = cl
    if i.bl != i.cl:
        bl = E.newint(st, 0, None)
        E.le(st, bl, i.bl)
        E.le(st, cl, bl)
    s = E.fresh()
    st.st[s] = SI(bl, cl, i.cs, (), (), False, None, frozenset(), i.tag, None)
    return [(st, ("sh", ("s", s)))]


# ----------------------------------------------------------------- sequences
def opt_elem(E, st, seq, k):
    pass


@rx(r"^(core::slice::<impl \[T\]>|std::vec::Vec::<T, A>|std::slice::<impl \[T\]>|std::collections::VecDeque::<T, A>)::len$")
def m_seqlen(E, st, a, x):
    return [(st, get_seq(E, st, a[0])[1])]


@rx(r"^(core::slice::<impl \[T\]>|std::vec::Vec::<T, A>)::is_empty$")
def m_seqempty(E, st, a, x):
    return [(s, ("b", b)) for s, b in E.cmp_int(st, "Eq", get_seq(E, st, a[0])[1], Z0)]


@rx(r"^std::vec::Vec::<T>::(new|with_capacity)$|^<std::vec::Vec<T> as std::default::Default>::default$")
def m_vecnew(E, st, a, x):
    return [(st, ("seq", Z0, (), None))]


@model("std::boxed::Box::<T>::new_uninit")
def m_boxuninit(E, st, a, x):
    return [(st, ("mu", ((E.cell(st, UN), ()),)))]


@model("std::boxed::Box::<T>::new")
def m_boxnew(E, st, a, x):
    return [(st, ("sh", a[0]))]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(E, st, a, x):
    v = E.rd(st, a[0])
    for _ in range(6):
        if v[0] == "seq":
            return [(st, v)]
        if v[0] == "agg":
            nx = [q for q in v[1] if q[0] != "un"]
            v = nx[-1] if nx else UN
        elif v[0] in ("sh", "mu"):
            v = E.rd(st, v)
        else:
            break
    return [(st, ("seq", E.newint(st, 0, SMAX), None, ("un",)))]


@model("std::slice::<impl [T]>::into_vec", "std::slice::<impl [T]>::to_vec")
def m_tovec(E, st, a, x):
    return [(st, get_seq(E, st, a[0]))]


@rx(r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone$|ConvertVec>::to_vec$|^<std::collections::BTree(Map|Set)<.*> as std::clone::Clone>::clone$|^<regex::Regex as std::clone::Clone>::clone$|^<std::path::PathBuf as std::clone::Clone>::clone$|Clone for \[T; N\]>::clone$|^<.*(Chars|CharIndices|slice::Iter|IntoIter|Split|Range|Peekable|Cow|Box).* as std::clone::Clone>::clone$|^<std::vec::Vec<.*> as std::convert::From<&.*>>::from$|std::array::<impl std::clone::Clone for \[T; N\]>::clone|<std::option::Option<.*> as std::clone::Clone>::clone|^std::clone::impls::<impl std::clone::Clone for .*>::clone$|<impl std::borrow::ToOwned for \[T\]>::to_owned$")
def m_clone(E, st, a, x):
    v = a[0]
    v = E.rd(st, v) if v[0] in ("sh", "mu") else v
    if v[0] == "top" and x["dty"] is not None:
        return [(st, E.expand(st, x["dty"]))]
    return [(st, v)]


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def m_vpush(E, st, a, x):
    s = get_seq(E, st, a[0])
    if s[2] is not None and len(s[2]) < 8:
        n = ("seq", I(len(s[2]) + 1), s[2] + (a[1],), None)
    else:
        n = ("seq", E.addi(st, s[1], I(1)), None, E.tjoin(E.elem_t(st, s), E.gen(st, a[1])))
    E.wr(st, a[0], n)
    return [(st, UNIT)]


@model("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_back", "std::collections::VecDeque::<T, A>::pop_front")
def m_vpop(E, st, a, x):
    s = get_seq(E, st, a[0])
    if s[2] is not None:
        if not s[2]:
            return [(st, NONE)]
        k = 0 if "front" in x["path"] else -1
        rest = s[2][1:] if k == 0 else s[2][:-1]
        E.wr(st, a[0], ("seq", I(len(s[2]) - 1), rest, None))
        return [(st, SOME(s[2][k]))]
    out = []
    for st2, e in E.cmp_int(st, "Eq", s[1], Z0):
        if e:
            out.append((st2, NONE))
        else:
            v = E.instantiate(st2, s[3]) if s[3] is not None else UN
            E.wr(st2, a[0], ("seq", E.addi(st2, s[1], I(-1)), None, s[3]))
            out.append((st2, SOME(v)))
    return out


@model("std::vec::Vec::<T, A>::clear")
def m_vclear(E, st, a, x):
    E.wr(st, a[0], ("seq", Z0, (), None))
    return [(st, UNIT)]


@model("std::vec::Vec::<T, A>::truncate")
def m_vtrunc(E, st, a, x):
    s = get_seq(E, st, a[0])
    out = []
    for s2, b in E.cmp_int(st, "Le", s[1], a[1]):
        if not b:
            E.wr(s2, a[0], ("seq", a[1], None, E.elem_t(s2, s)))
        out.append((s2, UNIT))
    return out


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_vremove(E, st, a, x):
    s = get_seq(E, st, a[0])
    ok = E.known_le(st, a[1], s[1], -1)
    E.oblig(st, ok, "vec-range", x["path"].split("::")[-1])
    if not ok and not E.le(st, a[1], s[1], -1):
        return []
    k = E.const(st, a[1])
    if s[2] is not None and k is not None and k < len(s[2]) and "swap" not in x["path"]:
        v = s[2][k]
        E.wr(st, a[0], ("seq", I(len(s[2]) - 1), s[2][:k] + s[2][k + 1 :], None))
        return [(st, v)]
    t = E.elem_t(st, s)
    E.wr(st, a[0], ("seq", E.addi(st, s[1], I(-1)), None, t))
    return [(st, E.instantiate(st, t) if t is not None else UN)]


@model("std::vec::Vec::<T, A>::insert")
def m_vinsert(E, st, a, x):
    s = get_seq(E, st, a[0])
    ok = E.known_le(st, a[1], s[1])
    E.oblig(st, ok, "vec-range", "insert")
    if not ok and not E.le(st, a[1], s[1]):
        return []
    t = E.tjoin(E.elem_t(st, s), E.gen(st, a[2]))
    E.wr(st, a[0], ("seq", E.addi(st, s[1], I(1)), None, t))
    return [(st, UNIT)]


@model("std::vec::Vec::<T, A>::append", "std::vec::Vec::<T, A>::extend_from_slice")
def m_vappend(E, st, a, x):
    s = get_seq(E, st, a[0])
    t = get_seq(E, st, a[1])
    E.wr(st, a[0], seq_concat(E, st, s, t))
    if x["path"].endswith("append"):
        E.wr(st, a[1], ("seq", Z0, (), None))
    return [(st, UNIT)]


def seq_concat(E, st, s, t):
    if s[2] is not None and t[2] is not None and len(s[2]) + len(t[2]) <= 12:
        return ("seq", I(len(s[2]) + len(t[2])), s[2] + t[2], None)
    return ("seq", E.addi(st, s[1], t[1]), None, E.tjoin(E.elem_t(st, s), E.elem_t(st, t)))


def seq_at(E, st, s, k, ref=True):
    """element value at index lin k"""
    c = E.const(st, k)
    if s[2] is not None and c is not None and 0 <= c < len(s[2]):
        return s[2][c]
    if s[2] is not None:
        return E.sel_elem(st, s, k)
    return E.instantiate(st, s[3]) if s[3] is not None else UN


@rx(r"^core::slice::<impl \[T\]>::(get|get_mut|first|last|first_mut|last_mut)$|^std::vec::Vec::<T, A>::(first|last|get)$")
def m_seqget(E, st, a, x):
    op = x["path"].split("::")[-1]
    s = get_seq(E, st, a[0])
    if op.startswith("first"):
        k = Z0
    elif op.startswith("last"):
        k = E.addi(st, s[1], I(-1))
    else:
        k = E.as_int(st, a[1])
        if k is None:
            # sub-range
            r = range_of(E, st, a[1], x["args_ty"][-1], s[1])
            if r is None:
                return None
            st0 = st.copy()
            e = r[1] if r[1][0] != "incl" else E.addi(st, r[1][1], I(1))
            out = []
            if not (E.known_le(st, r[0], e) and E.known_le(st, e, s[1])):
                out.append((st0, NONE))
            if E.le(st, r[0], e) and E.le(st, e, s[1]):
                out.append((st, SOME(("sh", subseq(E, st, s, r[0], e)))))
            return out
    out = []
    if op.startswith("last"):
        br = E.cmp_int(st, "Lt", Z0, s[1])
    else:
        br = E.cmp_int(st, "Lt", k, s[1])
    for s2, b in br:
        if not b:
            out.append((s2, NONE))
            continue
        if op.endswith("_mut"):
            if s[2] is not None and E.const(s2, k) is None:
                # a write through it reaches any of the elements
                imprecise(s2)
            out.append((s2, SOME(elem_ref(E, s2, a[0], s, k))))
        else:
            out.append((s2, SOME(("sh", seq_at(E, s2, s, k)))))
    return out


def subseq(E, st, s, a, b):
    ka, kb = E.const(st, a), E.const(st, b)
    if s[2] is not None and ka is not None and kb is not None:
        el = s[2][ka:kb]
        return ("seq", I(len(el)), el, None)
    return ("seq", E.subi(st, b, a), None, E.elem_t(st, s))


def elem_ref(E, st, ref, s, k):
    """mutable reference to one element"""
    c = E.const(st, k)
    if ref[0] == "mu" and len(ref[1]) == 1:
        root, path = ref[1][0]
        if s[2] is not None and c is not None:
            return ("mu", ((root, path + (("x", I(c)),)),))
        cell = E.cell(st, seq_at(E, st, s, k), ref[1])
        return ("mu", ((cell, ()),))
    cell = E.cell(st, seq_at(E, st, s, k), ref[1] if ref[0] == "mu" else None)
    return ("mu", ((cell, ()),))


@rx(r"^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$|^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$|^core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$|^std::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$|^std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$")
def m_seqindex(E, st, a, x):
    s = get_seq(E, st, a[0])
    mut = x["path"].endswith("_mut")
    k = E.as_int(st, a[1])
    if k is None:
        r = range_of(E, st, deref(E, st, a[1]), x["args_ty"][-1], s[1])
        if r is None:
            E.oblig(st, False, "slice-range", "index")
            return [(st, ("sh", ("seq", E.newint(st, 0, SMAX), None, E.elem_t(st, s))))]
        b, e = r[0], incl_end(E, st, r[1], "index")
        ok = E.known_le(st, b, e) and E.known_le(st, e, s[1]) and (E.lb(st, b) or 0) >= 0
        E.oblig(st, ok, "slice-range", "index")
        if not ok and not (E.le(st, b, e) and E.le(st, e, s[1])):
            return []
        sub = subseq(E, st, s, b, e)
        if mut:
            return [(st, ("mu", ((E.cell(st, sub), ()),)))]
        return [(st, ("sh", sub))]
    ok = E.known_le(st, k, s[1], -1) and (E.lb(st, k) or 0) >= 0
    E.oblig(st, ok, "vec-index", "index")
    if not ok and not E.le(st, k, s[1], -1):
        return []
    if mut:
        return [(st, elem_ref(E, st, a[0], s, k))]
    return [(st, ("sh", seq_at(E, st, s, k)))]


def seq_maybe(E, st, s):
    """false, or true when the sequence has an element"""
    out = []
    t = st.copy()
    if E.le(t, I(1), s[1]):
        out.append((t, TRUE))
    out.append((st, FALSE))
    return out


@rx(r"^core::slice::<impl \[T\]>::(contains)$")
def m_seqcontains(E, st, a, x):
    s = get_seq(E, st, a[0])
    v = deref(E, st, a[1])
    if v[0] == "c":
        if s[2] is not None:
            bits = 0
            exact = True
            for y in s[2]:
                c = get_c(E, st, y)
                b = E.cset(st, c)
                if E.A.single(b) is None:
                    exact = False
                bits |= b
            if exact:
                return [(s2, ("b", b)) for s2, b in E.char_in(st, v, bits, "contains")]
            if bits & E.cset(st, v) == 0:
                return [(st, FALSE)]
        else:
            t = E.elem_t(st, s)
            if E.ctag(st, v) and E.hooks.get("raw_cmp"):
                E.hooks["raw_cmp"](E, st, E.cset(st, v), t[1] if t and t[0] == "C" else E.A.ALL, "contains")
            if t and t[0] == "C" and t[1] & E.cset(st, v) == 0:
                return [(st, FALSE)]
            if t is None:
                return [(st, FALSE)]
        return seq_maybe(E, st, s)
    if v[0] == "s" and s[2] is not None and len(s[2]) <= 40:
        out = []
        cur = [st]
        for y in s[2]:
            nxt = []
            for c in cur:
                sv = get_s(E, c, y)
                for s2, b in str_eq(E, c, v, sv, "contains"):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((c, FALSE) for c in cur)
        if len(out) > 6:
            # join the positive outcomes
            pos = [o for o in out if o[1] == TRUE]
            neg = [o for o in out if o[1] == FALSE]
            a0 = pos[0][0]
            k = E.fresh()
            for p, _ in pos[1:]:
                a0, _ = E.join(a0, p)
            return [(a0, TRUE)] + neg
        return out
    return seq_maybe(E, st, s)


@rx(r"^core::slice::<impl \[T\]>::(iter|iter_mut)$|^<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|(core|std)::(slice|array)::(iter::)?<impl std::iter::IntoIterator for &'a (mut )?(\[T\]|\[T; N\])>::into_iter$")
def m_iter(E, st, a, x):
    if x["path"].endswith("iter_mut") or "&'a mut" in x["path"]:
        return [(st, ("obj", "slitermut", x["dty"], (a[0], Z0, Z0)))]
    return [(st, ("obj", "sliter", x["dty"], (get_seq(E, st, a[0]), Z0, Z0)))]


@rx(r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|IntoIterator for \[T; N\]>::into_iter$|^std::vec::Vec::<T, A>::drain$|^std::array::IntoIter::<T, N>::new$")
def m_intoiter(E, st, a, x):
    if x["path"].endswith("drain"):
        s = get_seq(E, st, a[0])
        r = range_of(E, st, deref(E, st, a[1]), x["args_ty"][-1], s[1])
        if r is None:
            return None
        b, e = r[0], incl_end(E, st, r[1], "drain")
        ok = E.known_le(st, b, e) and E.known_le(st, e, s[1])
        E.oblig(st, ok, "slice-range", "drain")
        if not ok and not (E.le(st, b, e) and E.le(st, e, s[1])):
            return []
        sub = subseq(E, st, s, b, e)
        n = E.subi(st, s[1], sub[1])
        full = E.const(st, n) == 0
        E.wr(st, a[0], ("seq", n, () if full else None, None if full else E.elem_t(st, s)))
        return [(st, ("obj", "intoiter", x["dty"], (sub, Z0, Z0)))]
    return [(st, ("obj", "intoiter", x["dty"], (get_seq(E, st, a[0]), Z0, Z0)))]


def iter_next(E, st, a, byref, front=True):
    o = deref(E, st, a[0])
    if o[0] != "obj" or o[1] not in ("sliter", "intoiter", "slitermut"):
        return None
    base, f, b = o[3]
    s = get_seq(E, st, base) if o[1] == "slitermut" else base
    used = E.addi(st, f, b)
    out = []
    s0 = st.copy()
    br = []
    if E.eqi(s0, s[1], used):
        out.append((s0, NONE))
    if E.le(st, used, s[1], -1):
        if s[2] is None and s[3] is None:
            return out
        k = f if front else E.addi(st, s[1], E.subi(st, I(-1), b))
        nf, nb = (E.addi(st, f, I(1)), b) if front else (f, E.addi(st, b, I(1)))
        E.wr(st, a[0], ("obj", o[1], o[2], (base, nf, nb)))
        if o[1] == "slitermut":
            v = elem_ref(E, st, base, s, k)
        else:
            v = seq_at(E, st, s, k)
            if o[1] == "sliter":
                v = ("sh", E.deep_expand(st, v, 8))
        out.append((st, SOME(v)))
    return out


@rx(r"^<std::slice::Iter<'a, T> as std::iter::Iterator>::next$")
def m_sliter_next(E, st, a, x):
    return iter_next(E, st, a, True)


@rx(r"^<std::slice::IterMut<'a, T> as std::iter::Iterator>::next$")
def m_slitermut_next(E, st, a, x):
    return iter_next(E, st, a, True)


@rx(r"^<std::(array::IntoIter<T, N>|vec::IntoIter<T, A>|vec::Drain<'_, T, A>) as std::iter::Iterator>::next$")
def m_intoiter_next(E, st, a, x):
    return iter_next(E, st, a, False)


@rx(r"^<std::(array::IntoIter<T, N>|vec::IntoIter<T, A>|slice::Iter<'a, T>|slice::IterMut<'a, T>|vec::Drain<'_, T, A>) as std::iter::DoubleEndedIterator>::next_back$")
def m_intoiter_back(E, st, a, x):
    return iter_next(E, st, a, False, front=False)


@rx(r"^core::slice::<impl \[T\]>::(windows|chunks|chunks_exact)$")
def m_windows(E, st, a, x):
    s = get_seq(E, st, a[0])
    n = E.as_int(st, a[1])
    if (E.lb(st, n) or 0) < 1:
        E.oblig(st, False, "windows-zero", x["path"].split("::")[-1])
    cnt = E.newint(st, 0, SMAX)
    E.le(st, cnt, s[1])
    win = x["path"].endswith("windows")
    k = E.const(st, n)
    if win and k is not None:
        out = []
        for s2, b in E.cmp_int(st, "Le", n, s[1]):
            c = E.addi(s2, s[1], I(1 - k)) if b else Z0
            item = ("sh", ("seq", ("I", k, k), None, E.elem_t(s2, s)))
            out.append((s2, ("obj", "intoiter", x["dty"], (("seq", c, None, item), Z0, Z0))))
        return out
    item = ("sh", ("seq", ("I", 1, k), None, E.elem_t(st, s)))
    return [(st, ("obj", "intoiter", x["dty"], (("seq", cnt, None, item), Z0, Z0)))]


@rx(r"^<std::slice::(Windows|Chunks|ChunksExact)<'a, T> as std::iter::Iterator>::next$")
def m_windows_next(E, st, a, x):
    return iter_next(E, st, a, False)


@rx(r"^(core|std)::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|reverse|swap|rotate_left|rotate_right|fill)$|^std::vec::Vec::<T, A>::(dedup|retain|dedup_by_key|dedup_by)$")
def m_sort(E, st, a, x):
    op = x["path"].split("::")[-1]
    s = get_seq(E, st, a[0])
    t = E.elem_t(st, s)
    if op == "swap":
        for k in a[1:3]:
            ok = E.known_le(st, k, s[1], -1)
            E.oblig(st, ok, "vec-index", "swap")
            if not ok and not E.le(st, k, s[1], -1):
                return []
    if op == "fill":
        t = E.gen(st, a[1])
    ln = s[1]
    if op in ("dedup", "retain", "dedup_by_key", "dedup_by"):
        n = E.newint(st, 0, SMAX)
        E.le(st, n, ln)
        if op != "retain" and (E.lb(st, ln) or 0) >= 1:
            E.le(st, I(1), n)
        ln = n
    if len(a) > 1 and a[-1][0] in ("clo", "fn", "mu", "sh") and op not in ("swap", "fill") and t is not None:
        # the callback may run on any elements
        s2 = st.copy()
        n = 2 if op in ("sort_by", "sort_unstable_by", "dedup_by") else 1
        kind = "sh" if op not in ("dedup_by", "dedup_by_key") else "mu"
        vs = []
        for _ in range(n):
            v = E.instantiate(s2, t)
            vs.append(("sh", v) if kind == "sh" else ("mu", ((E.cell(s2, v), ()),)))
        E.call_value(s2, a[-1], vs, None)
    E.wr(st, a[0], ("seq", ln, None if t is not None or E.const(st, ln) != 0 else (), t))
    return [(st, UNIT)]


@rx(r"^std::slice::<impl \[T\]>::(join|concat)$")
def m_join(E, st, a, x):
    s = get_seq(E, st, a[0])
    t = E.elem_t(st, s)
    if E.T[x["dty"]]["k"] == "adt" and not E.is_string_ty(E.T[x["dty"]]):
        if E.T[x["dty"]]["path"].endswith("vec::Vec"):
            return [(st, ("seq", E.newint(st, 0, SMAX), None, ("top", E.T[x["dty"]]["args"][0])))]
        return None
    bits = 0
    tag = 0
    lo = 0
    sep = get_s(E, st, a[1]) if len(a) > 1 and x["path"].endswith("join") else None
    if t is not None:
        q = t
        while q[0] == "sh":
            q = q[1]
        if q[0] == "S":
            bits |= q[1]
            tag |= q[7]
            if (E.lb(st, s[1]) or 0) >= 1:
                lo = q[4]
        else:
            bits = E.A.ALL
    if sep is not None:
        bits |= E.S(st, sep).cs
        tag |= E.S(st, sep).tag
    if s[2] is not None and len(s[2]) <= 4:
        cur = E.conststr(st, "")
        for n, y in enumerate(s[2]):
            if n and sep is not None:
                cur = concat(E, st, cur, sep)
            cur = concat(E, st, cur, get_s(E, st, y))
        return [(st, cur)]
    return [(st, E.newstr(st, bits, lo, SMAX, lo, SMAX, tag=tag))]


@rx(r"^std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from$|^<\[T; N\] as std::convert::TryFrom<.*>>::try_from$")
def m_tryfrom_vec(E, st, a, x):
    s = get_seq(E, st, a[0])
    rt = E.T[x["dty"]]
    okty = rt["args"][0]
    n = E.T[okty]["len"]
    out = []
    for s2, b in E.cmp_int(st, "Eq", s[1], I(n)):
        if b:
            if s[2] is not None:
                v = s
            elif n <= 64:
                v = ("seq", I(n), tuple(E.instantiate(s2, s[3]) if s[3] is not None else UN for _ in range(n)), None)
            else:
                v = ("seq", I(n), None, s[3])
            out.append((s2, OK(v)))
        else:
            out.append((s2, ERR(s)))
    return out


# split & friends ------------------------------------------------------------
@rx(r"<impl str>::(split|split_whitespace|split_ascii_whitespace|lines|rsplit|splitn|rsplitn|split_terminator|split_inclusive)$")
def m_split(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    op = x["path"].split("::")[-1]
    bits = i.cs
    if op in ("split", "rsplit", "split_terminator") and x["args_ty"]:
        p = fn_pat(E, st, pat_of(E, st, a[1], x["args_ty"][0]), i)
        if p[0] == "set" and p[2]:
            bits &= ~p[1]
        elif p[0] == "char":
            k = E.A.single(E.cset(st, p[1]))
            if k is not None:
                bits &= ~E.A.c(k)
        elif p[0] == "str" and E.S(st, p[1]).k and len(E.S(st, p[1]).k) == 1:
            bits &= ~E.A.of(E.S(st, p[1]).k)
    lo = 0
    if op in ("split_whitespace", "split_ascii_whitespace"):
        bits &= ~E.A.cls["whitespace" if op == "split_whitespace" else "ascii_whitespace"]
        lo = 1
    n = E.newint(st, 1 if op in ("split", "rsplit", "splitn", "rsplitn") else 0, SMAX)
    item = ("sh", ("S", bits, lo, E.ub(st, i.bl), lo, E.ub(st, i.cl), None, i.tag))
    return [(st, ("obj", "intoiter", x["dty"], (("seq", n, None, item), Z0, Z0)))]


@rx(r"^<std::str::(Split|SplitWhitespace|SplitAsciiWhitespace|Lines|RSplit|SplitN|RSplitN|SplitTerminator|SplitInclusive)<.*> as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$")
def m_split_next(E, st, a, x):
    return iter_next(E, st, a, False, front=not x["path"].endswith("back"))


@rx(r"<impl str>::split_once$|<impl str>::rsplit_once$")
def m_splitonce(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    s2 = st.copy()
    u = E.ub(st, i.bl)
    p = E.newstr(st, i.cs, tag=i.tag)
    q = E.newstr(st, i.cs, tag=i.tag)
    for r in (p, q):
        E.le(st, E.S(st, r).bl, i.bl)
        E.le(st, E.S(st, r).cl, i.cl)
    return [(st, SOME(("agg", (("sh", p), ("sh", q))))), (s2, NONE)]


@rx(r"<impl str>::parse$")
def m_parse(E, st, a, x):
    # inline FromStr of local types through the resolved instance is not possible here
    dty = x["dty"]
    return None


# ------------------------------------------------------------ generic iterators
def it_next(E, st, mu, ity):
    """[(state, None | item)] one step of an iterator"""
    m = E.iters.get(ity)
    if m is None or "next" not in m:
        E.note("iterator " + (E.tname(ity) if ity is not None else "?"))
        st.flags = tuple(sorted(set(st.flags) | {"imp"}))
        s2 = st.copy()
        return [(st, ("un",)), (s2, None)]
    f = E.F[m["next"]]
    x = {"f": f, "decl": "std::iter::Iterator::next", "path": f["path"], "args_ty": f["args"], "dty": None}
    if "locals" in f:
        x["dty"] = f["locals"][0]
    elif E.cfg.get("ret", {}).get(f["id"]):
        x["dty"] = E.cfg["ret"][f["id"]]
    mm = E.find_model(f["path"], "std::iter::Iterator::next")
    r = mm(E, st, [mu], x) if mm is not None else None
    if r is None:
        r = E.call_inst(st, f, [mu], x)
    out = []
    for s, v in r:
        if s.z.bot:
            continue
        if v[0] == "top":
            v = E.expand(s, v[1])
        if v[0] != "en":
            s2 = s.copy()
            out.append((s, ("un",)))
            out.append((s2, None))
            continue
        for k, (j, fs) in enumerate(v[1]):
            s2 = s if k == len(v[1]) - 1 else s.copy()
            if j == 0:
                out.append((s2, None))
            else:
                out.append((s2, fs[0] if fs else UN))
    return out


@rx(r"^<&mut I as std::iter::Iterator>::next$")
def m_refnext(E, st, a, x):
    # &mut &mut I
    inner = deref1(E, st, a[0])
    t = E.T[x["args_ty"][0]] if x["args_ty"] else None
    ity = x["args_ty"][0]
    if E.T[ity]["k"] == "ref":
        ity = E.T[ity]["elem"]
    out = []
    for s, it in it_next(E, st, inner, ity):
        out.append((s, NONE if it is None else SOME(it)))
    return out


def deref1(E, st, v):
    return E.rd(st, v)


@rx(r"^<std::ops::Range<A> as std::iter::Iterator>::next$|^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$")
def m_range_next(E, st, a, x):
    r = deref(E, st, a[0])
    if r[0] == "top":
        r = E.expand(st, r[1])
    s, e = r[1][0], r[1][1]
    if s[0] != "i":
        return None
    out = []
    for s2, b in E.cmp_int(st, "Lt", s, e):
        if b:
            E.wr(s2, a[0], ("agg", (E.addi(s2, s, I(1)), e)))
            out.append((s2, SOME(s)))
        else:
            out.append((s2, NONE))
    return out


@rx(r"impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$")
def m_range_back(E, st, a, x):
    r = deref(E, st, a[0])
    s, e = r[1][0], r[1][1]
    out = []
    for s2, b in E.cmp_int(st, "Lt", s, e):
        if b:
            n = E.addi(s2, e, I(-1))
            E.wr(s2, a[0], ("agg", (s, n)))
            out.append((s2, SOME(n)))
        else:
            out.append((s2, NONE))
    return out


@rx(r"impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next$")
def m_rangeinc_next(E, st, a, x):
    r = deref(E, st, a[0])
    s, e, ex = r[1][0], r[1][1], r[1][2]
    if s[0] != "i":
        s2 = st.copy()
        return [(st, NONE), (s2, SOME(E.newchar(s2, E.A.ALL)))] if s[0] == "c" else None
    out = []
    for s1, done in E.split_bool(st, ex):
        if done:
            out.append((s1, NONE))
            continue
        for s2, b in E.cmp_int(s1, "Le", s, e):
            if not b:
                out.append((s2, NONE))
                continue
            for s3, lt in E.cmp_int(s2, "Lt", s, e):
                if lt:
                    E.wr(s3, a[0], ("agg", (E.addi(s3, s, I(1)), e, FALSE)))
                else:
                    E.wr(s3, a[0], ("agg", (s, e, TRUE)))
                out.append((s3, SOME(s)))
    return out


@rx(r"impl std::iter::Iterator for std::ops::RangeFrom<A>>::next$")
def m_rangefrom_next(E, st, a, x):
    r = deref(E, st, a[0])
    s = r[1][0]
    E.wr(st, a[0], ("agg", (E.addi(st, s, I(1)),)))
    return [(st, SOME(s))]


@rx(r"^<std::iter::Zip<A, B> as std::iter::Iterator>::next$")
def m_zip_next(E, st, a, x):
    z = a[0]
    if z[0] != "mu":
        return None
    ta = x["args_ty"][0]
    while E.T[ta]["k"] == "ref":
        ta = E.T[ta]["elem"]
    if len(x["args_ty"]) < 2:
        if E.T[ta]["k"] != "adt" or len(E.T[ta]["args"]) < 2:
            return None
        ta, tb = E.T[ta]["args"][:2]
    else:
        ta, tb = x["args_ty"][:2]
    ra = ("mu", tuple((r, p + (("f", 0, ta),)) for r, p in z[1]))
    rb = ("mu", tuple((r, p + (("f", 1, tb),)) for r, p in z[1]))
    out = []
    for s, i1 in it_next(E, st, ra, ta):
        if i1 is None:
            out.append((s, NONE))
            continue
        k = ("tmp", E.fresh())
        s.mem[k] = i1
        for s2, i2 in it_next(E, s, rb, tb):
            v = s2.mem.pop(k)
            if i2 is None:
                out.append((s2, NONE))
            else:
                out.append((s2, SOME(("agg", (v, i2)))))
    return out


@rx(r"^<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new$|^std::iter::Zip::<A, B>::new$")
def m_zip_new(E, st, a, x):
    return [(st, ("agg", (a[0], a[1], Z0, Z0)))]


@model("std::iter::Iterator::zip", "std::iter::zip")
def m_zip(E, st, a, x):
    # the second argument is anything iterable
    k = ("tmp", E.fresh())
    st.mem[k] = a[0]
    return [(s, ("agg", (s.mem.pop(k), v, Z0, Z0))) for s, v, _ in as_iter(E, st, a[1], x["args_ty"][1])]


def as_iter(E, st, v, ity):
    """IntoIterator::into_iter: [(state, iterator, its type)]"""
    m = E.iters.get(ity, {})
    if "next" in m or "into_iter" not in m:
        return [(st, v, ity)]
    f = E.F[m["into_iter"]]
    y = {"f": f, "decl": "std::iter::IntoIterator::into_iter", "path": f["path"], "args_ty": f["args"], "dty": m.get("into")}
    mm = E.find_model(f["path"], y["decl"])
    r = mm(E, st, [v], y) if mm else None
    if r is None:
        r = E.call_inst(st, f, [v], y)
    return [(s, u, m.get("into", ity)) for s, u in r]


def loop(E, st, it, ity, body, init):
    """generic consuming loop.  it: iterator value or mutable reference.
    body(st, item, acc_root) -> [(state, 'c' | value-to-return)]
    Accumulator values live in st.mem[acc root]."""
    base = ("tmp", E.fresh())
    if it[0] == "mu" and E.T[ity]["k"] != "ref":
        itr = it
    else:
        if E.T[ity]["k"] == "ref" and it[0] == "mu":
            itr = it
            ity = E.T[ity]["elem"]
        else:
            r = ("tmp", E.fresh())
            st.mem[r] = it
            itr = ("mu", ((r, ()),))
    itk = ("tmp", E.fresh())
    st.mem[itk] = itr
    acc = ("tmp", E.fresh())
    st.mem[acc] = init
    ret = ("tmp", E.fresh())

    def step(s):
        cont, ex = [], []
        for s2, item in it_next(E, s, s.mem[itk], ity):
            if item is None:
                s2.mem[ret] = ("agg", (I(0),))
                ex.append(s2)
                continue
            for s3, r in body(s2, item, acc):
                if r == "c":
                    cont.append(s3)
                else:
                    s3.mem[ret] = ("agg", (I(1), r))
                    ex.append(s3)
        return cont, ex

    outs = E.fix([st], step, None)
    res = []
    for s in outs:
        rv = s.mem.pop(ret)
        av = s.mem.pop(acc)
        for q in (itk, base):
            s.mem.pop(q, None)
        if itr[1][0][0][0] == "tmp" and not (it[0] == "mu"):
            s.mem.pop(itr[1][0][0], None)
        res.append((s, rv[1][1] if len(rv[1]) > 1 else None, av))
    # exits were merged regardless of how they ended only when signatures agree
    return res


def callf(E, st, f, args):
    """call a callable stored at mutable place f; [(state, value)]"""
    return E.call_value(st, f, args, None)


def fcell(E, st, f):
    if f[0] == "clo":
        r = ("tmp", E.fresh())
        st.mem[r] = f
        return ("mu", ((r, ()),)), r
    return f, None


def closed(E, res, r):
    if r is not None:
        for t in res:
            t[0].mem.pop(r, None)
    return res


def self_it(E, st, a, x):
    return a[0], x["args_ty"][0]


def loop_closed(E, st, a, x, body, r):
    res = loop(E, st, a[0], x["args_ty"][0], body, UNIT)
    closed(E, res, r)
    return res


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def m_any(E, st, a, x):
    anyp = x["decl"].endswith("any")
    f, r = fcell(E, st, a[1])

    def body(s, item, acc):
        out = []
        for s2, v in callf(E, s, f, [item]):
            for s3, b in E.split_bool(s2, v):
                out.append((s3, ("b", anyp) if b == anyp else "c"))
        return out

    # a text all of whose characters (do not) satisfy the predicate
    o = E.rd(st, a[0]) if a[0][0] == "mu" else a[0]
    sv = keep = None
    if o[0] == "obj" and o[1] == "chars" and o[3][1:] == (Z0, Z0):
        sv = o[3][0]
        i = E.S(st, sv)
        fb = fn_bits(E, st, a[1], i.cs, i.tag)
        keep = fb and (fb[1] if anyp else fb[0])
    out = []
    for s, v, _ in loop_closed(E, st, a, x, body, r):
        if v is None:
            if keep is not None and sv[1] in s.st:
                if keep == 0 and not E.eqi(s, E.S(s, sv).cl, Z0):
                    continue
                i = E.S(s, sv)
                if keep & ~E.A.ASCII == 0 and i.bl != i.cl:
                    if not E.eqi(s, i.bl, i.cl):
                        continue
                    i = E.S(s, sv)._replace(bl=i.cl)
                s.st[sv[1]] = i._replace(cs=i.cs & keep)
            elif o[0] == "obj" and o[1] == "intoiter":
                imprecise(s)
        out.append((s, ("b", not anyp) if v is None else v))
    return out


@model("std::iter::Iterator::find", "std::iter::Iterator::rfind")
def m_itfind(E, st, a, x):
    if x["decl"].endswith("rfind"):
        return None
    f, r = fcell(E, st, a[1])

    def body(s, item, acc):
        k = ("tmp", E.fresh())
        s.mem[k] = item
        out = []
        for s2, v in callf(E, s, f, [("mu", ((k, ()),)) if item[0] == "en" else ("sh", item)]):
            for s3, b in E.split_bool(s2, v):
                it = s3.mem.pop(k, None) if b else (s3.mem.pop(k, None), None)[1]
                if not b:
                    s3.mem.pop(k, None)
                out.append((s3, SOME(it) if b else "c"))
        return out

    res = loop(E, st, a[0], x["args_ty"][0], body, UNIT)
    closed(E, res, r)
    return [(s, NONE if v is None else v) for s, v, _ in res]


@model("std::iter::Iterator::find_map")
def m_findmap(E, st, a, x):
    f, r = fcell(E, st, a[1])

    def body(s, item, acc):
        out = []
        for s2, v in callf(E, s, f, [item]):
            for s3, o in split_opt(E, s2, v):
                out.append((s3, "c" if o is None else SOME(o)))
        return out

    res = loop(E, st, a[0], x["args_ty"][0], body, UNIT)
    closed(E, res, r)
    return [(s, NONE if v is None else v) for s, v, _ in res]


def split_opt(E, st, v):
    """[(state, None|payload)] for an Option value"""
    if v[0] == "top":
        v = E.expand(st, v[1])
    if v[0] == "mu" or v[0] == "sh":
        v = E.rd(st, v)
    if v[0] != "en":
        s2 = st.copy()
        return [(st, None), (s2, UN)]
    out = []
    for k, (j, fs) in enumerate(v[1]):
        s2 = st if k == len(v[1]) - 1 else st.copy()
        out.append((s2, None if j == 0 else fs[0]))
    return out


@model("std::iter::Iterator::position")
def m_position(E, st, a, x):
    f, r = fcell(E, st, a[1])

    def body(s, item, acc):
        out = []
        for s2, v in callf(E, s, f, [item]):
            for s3, b in E.split_bool(s2, v):
                n = s3.mem[acc]
                if b:
                    out.append((s3, SOME(n)))
                else:
                    s3.mem[acc] = E.addi(s3, n, I(1))
                    out.append((s3, "c"))
        return out

    res = loop(E, st, a[0], x["args_ty"][0], body, Z0)
    closed(E, res, r)
    return [(s, NONE if v is None else v) for s, v, _ in res]


@model("std::iter::Iterator::count")
def m_count(E, st, a, x):
    if a[0][0] == "obj" and a[0][1] == "chars":
        return m_chars_count(E, st, a, x)

    def body(s, item, acc):
        s.mem[acc] = E.addi(s, s.mem[acc], I(1))
        return [(s, "c")]

    res = loop(E, st, a[0], x["args_ty"][0], body, Z0)
    return [(s, n) for s, _, n in res]


@model("std::iter::Iterator::last")
def m_last(E, st, a, x):
    if a[0][0] == "obj" and a[0][1] in ("chars", "charidx"):
        return m_chars_last(E, st, a, x)
    def body(s, item, acc):
        s.mem[acc] = SOME(item)
        return [(s, "c")]

    res = loop(E, st, a[0], x["args_ty"][0], body, NONE)
    return [(s, n) for s, _, n in res]


@model("std::iter::Iterator::for_each")
def m_foreach(E, st, a, x):
    f, r = fcell(E, st, a[1])

    def body(s, item, acc):
        return [(s2, "c") for s2, _ in callf(E, s, f, [item])]

    res = loop(E, st, a[0], x["args_ty"][0], body, UNIT)
    closed(E, res, r)
    return [(s, UNIT) for s, _, _ in res]


@model("std::iter::Iterator::fold")
def m_fold(E, st, a, x):
    f, r = fcell(E, st, a[2])

    def body(s, item, acc):
        out = []
        v0 = s.mem[acc]
        for s2, v in callf(E, s, f, [v0, item]):
            s2.mem[acc] = v
            out.append((s2, "c"))
        return out

    res = loop(E, st, a[0], x["args_ty"][0], body, a[1])
    closed(E, res, r)
    return [(s, n) for s, _, n in res]


@model("std::iter::Iterator::sum")
def m_sum(E, st, a, x):
    def body(s, item, acc):
        v = E.as_int(s, deref(E, s, item))
        s.mem[acc] = E.addi(s, s.mem[acc], v) if v is not None else E.newint(s)
        return [(s, "c")]

    res = loop(E, st, a[0], x["args_ty"][0], body, Z0)
    return [(s, n) for s, _, n in res]


@model("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key")
def m_itmax(E, st, a, x):
    def body(s, item, acc):
        o = s.mem[acc]
        out = []
        for s2, p in split_opt(E, s, o):
            if p is None:
                s2.mem[acc] = SOME(item)
            else:
                t = E.tjoin(E.gen(s2, p), E.gen(s2, item))
                s2.mem[acc] = SOME(E.instantiate(s2, t))
            out.append((s2, "c"))
        return out

    res = loop(E, st, a[0], x["args_ty"][0], body, NONE)
    return [(s, n) for s, _, n in res]


@model("std::iter::Iterator::nth")
def m_nth(E, st, a, x):
    n = E.as_int(st, a[1])
    o = deref(E, st, a[0])
    ity = x["args_ty"][0]
    k = E.const(st, n)
    if o[0] == "obj" and o[1] in ("chars", "charidx", "sliter", "intoiter") and (k is None or k > 4):
        # skip n items at once
        return nth_skip(E, st, a[0], o, n, ity)
    t = E.T[ity]
    while t["k"] == "ref":
        t = E.T[t["elem"]]
    if o[0] == "agg" and a[0][0] == "mu" and t["k"] == "adt" and t["path"] == "std::iter::Skip":
        # Skip { iter, n }: the n items are skipped with the requested ones
        sk = E.as_int(st, o[1][1])
        if sk is not None:
            E.wr(st, a[0], ("agg", (o[1][0], Z0)))
            ref = ("mu", tuple((r, p + (("f", 0, t["args"][0]),)) for r, p in a[0][1]))
            return m_nth(E, st, [ref, E.addi(st, n, sk)], dict(x, args_ty=[t["args"][0]]))
    if k is not None and k <= 4:
        out = []
        work = [(st, 0)]
        while work:
            s, j = work.pop()
            for s2, item in it_next(E, s, a[0], ity):
                if item is None:
                    out.append((s2, NONE))
                elif j == k:
                    out.append((s2, SOME(item)))
                else:
                    work.append((s2, j + 1))
        if len(out) > 3:
            return pack(E, out)
        return out
    # generic loop
    nk = ("tmp", E.fresh())
    st.mem[nk] = n

    def body(s, item, acc):
        kk = ("tmp", E.fresh())
        s.mem[kk] = item
        out = []
        for s2, b in E.cmp_int(s, "Le", s.mem[nk], s.mem[acc]):
            it = s2.mem.pop(kk)
            if b:
                out.append((s2, SOME(it)))
            else:
                s2.mem[acc] = E.addi(s2, s2.mem[acc], I(1))
                out.append((s2, "c"))
        return out

    res = loop(E, st, a[0], ity, body, Z0)
    for t in res:
        t[0].mem.pop(nk, None)
    return [(s, NONE if v is None else v) for s, v, _ in res]


def pack(E, rs):
    k = ("tmp", E.fresh())
    for s, v in rs:
        s.mem[k] = v
        E.gc(s)
    ss, _ = E.merge([s for s, _ in rs], None, 12)
    return [(s, s.mem.pop(k)) for s in ss]


def nth_skip(E, st, ref, o, n, ity):
    if o[1] in ("chars", "charidx"):
        sv, f, b = o[3][:3]
        total = E.S(st, sv).cl
    else:
        sv, f, b = o[3]
        total = sv[1]
    out = []
    used = E.addi(st, E.addi(st, f, b), n)
    nf = E.addi(st, f, n)
    for s, ok in E.cmp_int(st, "Lt", used, total):
        if not ok:
            if o[1] == "charidx":
                rest = (sv, E.subi(s, total, b), b, E.S(s, sv).bl)
            else:
                rest = (sv, E.subi(s, total, b), b)
            E.wr(s, ref, ("obj", o[1], o[2], rest))
            out.append((s, NONE))
            continue
        if o[1] == "charidx":
            bo = E.newint(s, 0, None)
            i = E.S(s, sv)
            E.le(s, nf, bo)
            E.le(s, bo, i.bl)
            E.le(s, o[3][3], bo)
            E.le(s, E.addi(s, o[3][3], n), bo)
            if i.bl == i.cl:
                bo = nf
            s.st[sv[1]] = i._replace(bn=frozenset(q for q in i.bn | {bo + nf[1:3]} if q[1] or q[2]))
            E.wr(s, ref, ("obj", o[1], o[2], (sv, nf, b, bo)))
        else:
            E.wr(s, ref, ("obj", o[1], o[2], (sv, nf, b)))
        for s2, item in it_next(E, s, ref, ity):
            out.append((s2, NONE if item is None else SOME(item)))
    return out


@rx(r"^<std::str::(Chars|CharIndices)<'a> as std::iter::Iterator>::nth$|^<std::slice::Iter<'a, T> as std::iter::Iterator>::nth$|Iterator>::nth$")
def m_nth2(E, st, a, x):
    o = deref(E, st, a[0])
    if o[0] == "obj" and o[1] in ("chars", "charidx", "sliter", "intoiter") or x["decl"] != x["path"]:
        # receiver type is the impl type, not in args: resolve through the object
        ty = iter_type(E, x, o)
        if ty is not None:
            return m_nth(E, st, a, dict(x, args_ty=[ty]))
    return None


def iter_type(E, x, o):
    if o[0] == "obj" and o[2] is not None:
        return o[2]
    return x["args_ty"][0] if x["args_ty"] and x["args_ty"][0] in E.iters else None


@rx(r"^<std::str::Chars<'a> as std::iter::Iterator>::advance_by$|Iterator>?::advance_by$")
def m_advance(E, st, a, x):
    n = E.as_int(st, a[1])
    o = deref(E, st, a[0])
    k = E.const(st, n)
    ty = iter_type(E, x, o)
    if k == 0:
        return [(st, OK(UNIT))]
    out = []
    if k is not None:
        for s, v in m_nth(E, st, [a[0], I(k - 1)], dict(x, args_ty=[ty])):
            out.append((s, OK(UNIT) if v[1][0][0] == 1 else ERR(("top", None) if False else E.newint(s, 1, SMAX))))
        return out
    for s, z in E.cmp_int(st, "Eq", n, Z0):
        if z:
            out.append((s, OK(UNIT)))
        else:
            for s2, v in m_nth(E, s, [a[0], E.addi(s, n, I(-1))], dict(x, args_ty=[ty])):
                out.append((s2, OK(UNIT) if v[1][0][0] == 1 else ERR(E.newint(s2, 1, SMAX))))
    return out


@model("std::iter::Iterator::eq")
def m_iteq(E, st, a, x):
    return unknown_bool(st)


@model("std::iter::Iterator::by_ref")
def m_byref(E, st, a, x):
    return [(st, a[0])]


# -------------------------------------------------------------- collecting
def count_ub(E, st, v, ity):
    """upper bound (lin) on the number of items, or None"""
    if v[0] == "mu":
        v = deref(E, st, v)
    if v[0] == "obj":
        if v[1] in ("chars", "charidx"):
            return E.subi(st, i_cl(E, st, v[3][0]), E.addi(st, v[3][1], v[3][2]))
        if v[1] in ("sliter", "intoiter"):
            return E.subi(st, v[3][0][1], E.addi(st, v[3][1], v[3][2]))
        return None
    t = E.T[ity] if ity is not None else None
    if t and t["k"] == "ref":
        t = E.T[t["elem"]]
    if t is None or t["k"] != "adt" or v[0] != "agg":
        return None
    n = t["path"].split("::")[-1]
    fs = v[1]
    names = [f[0] for f in t["variants"][0]["fields"]] if t["variants"] else []

    def fld(nm):
        if nm in names:
            return fs[names.index(nm)], t["variants"][0]["fields"][names.index(nm)][1]
        return None, None

    if n in ("Map", "Filter", "Enumerate", "FilterMap", "Cloned", "Copied", "Inspect", "TakeWhile", "MapWhile", "SkipWhile", "StepBy", "Rev"):
        w, wt = fld("iter") if "iter" in names else fld("it")
        return count_ub(E, st, w, wt) if w is not None else None
    if n == "Skip":
        w, wt = fld("iter")
        k, _ = fld("n")
        i = count_ub(E, st, w, wt) if w is not None else None
        if i is not None and k is not None and k[0] == "i" and E.known_le(st, k, i):
            return E.subi(st, i, k)
        return i
    if n == "Take":
        w, wt = fld("iter")
        k, _ = fld("n")
        i = count_ub(E, st, w, wt) if w is not None else None
        if k is None:
            return i
        if i is not None and E.known_le(st, i, k):
            return i
        return k
    if n == "Peekable":
        w, wt = fld("iter")
        i = count_ub(E, st, w, wt) if w is not None else None
        return E.addi(st, i, I(1)) if i is not None else None
    if n == "Zip":
        a, at = fld("a")
        b, bt = fld("b")
        i = count_ub(E, st, a, at) if a is not None else None
        j = count_ub(E, st, b, bt) if b is not None else None
        return i if i is not None else j
    if n == "Chain":
        tot = Z0
        for w in ("a", "b"):
            f_, ft = fld(w)
            if f_ is None or f_[0] != "en":
                return None
            best = Z0
            for j, q in f_[1]:
                if j == 1:
                    at = E.T[ft]["args"][0]
                    best = count_ub(E, st, q[0], at)
                    if best is None:
                        return None
            tot = E.addi(st, tot, best)
        return tot
    return None


INF = ("inf",)


def count_lb(E, st, v, ity):
    """lower bound (lin) on the number of items, INF for an endless iterator, or None"""
    if v[0] == "mu":
        v = deref(E, st, v)
    if v[0] == "obj":
        if v[1] in ("chars", "charidx", "sliter", "intoiter"):
            return count_ub(E, st, v, ity)
        return None
    t = E.T[ity] if ity is not None else None
    if t and t["k"] == "ref":
        t = E.T[t["elem"]]
    if t is None or t["k"] != "adt" or v[0] != "agg" or not t["path"].startswith(("std::iter::", "core::iter::")):
        return None
    n = t["path"].split("::")[-1]
    fields = t["variants"][0]["fields"] if t["variants"] else []
    fl = {f[0]: (v[1][k], f[1]) for k, f in enumerate(fields) if k < len(v[1])}
    if n == "Repeat":
        return INF
    if n in ("Map", "Enumerate", "Cloned", "Copied", "Inspect", "Rev") and ("iter" in fl or "it" in fl):
        return count_lb(E, st, *fl.get("iter", fl.get("it")))
    if n == "Take" and "iter" in fl and "n" in fl and fl["n"][0][0] == "i":
        k = fl["n"][0]
        i = count_lb(E, st, *fl["iter"])
        if i is None or i == INF:
            return None if i is None else k
        if E.known_le(st, k, i):
            return k
        if E.known_le(st, i, k):
            return i
        return I(max(0, min(E.lb(st, k) or 0, E.lb(st, i) or 0)))
    if n == "Chain":
        tot = Z0
        for w in ("a", "b"):
            if w not in fl or fl[w][0][0] != "en":
                return None
            vs = fl[w][0][1]
            if len(vs) == 1 and vs[0][0] == 1:
                b = count_lb(E, st, vs[0][1][0], E.T[fl[w][1]]["args"][0])
                if b == INF:
                    return INF
                if b is not None:
                    tot = E.addi(st, tot, b)
        return tot
    return None


def item_str(E, st, item):
    v = deref(E, st, item)
    if v[0] == "c":
        return charstr(E, st, v)
    return get_s(E, st, v)


@rx(r"^<std::string::String as std::iter::FromIterator<.*>>::from_iter$|^<std::string::String as std::iter::Extend<.*>>::extend$")
def m_collect_string(E, st, a, x):
    ext = x["path"].endswith("extend")
    ity = x["args_ty"][-1]
    it = a[1] if ext else a[0]
    # the argument is an IntoIterator
    return collect_into(E, st, it, ity, x, ext, a)


def collect_into(E, st, it, ity, x, ext, a):
    out = []
    for s, v, t in as_iter(E, st, it, ity):
        out.extend(collect_str_loop(E, s, v, t, ext, a))
    return out


def collect_str_loop(E, st, it, ity, ext, a):
    if it[0] == "obj" and it[1] in ("sliter", "intoiter", "charidx", "chars") and ity not in E.iters:
        ity = it[2] if it[2] is not None else ity
    src = None
    v0 = deref(E, st, it) if it[0] == "mu" else it
    # a plain copy of the remaining characters
    if v0[0] == "obj" and v0[1] == "chars" and E.const(st, v0[3][2]) == 0:
        if E.const(st, v0[3][1]) == 0 and it[0] != "mu":
            r = v0[3][0]
            if ext:
                E.wr(st, a[0], concat(E, st, get_s(E, st, a[0]), r))
                return [(st, UNIT)]
            return [(st, r)]
    ub = count_ub(E, st, v0, ity)
    ubk = ("tmp", E.fresh())
    st.mem[ubk] = ub if ub is not None else UN
    lbk = ("tmp", E.fresh())
    least = count_lb(E, st, v0, ity) if it[0] != "mu" else None
    st.mem[lbk] = least if least is not None and least != INF else UN
    start = E.conststr(st, "")

    single = [True]

    def body(s, item, acc):
        v = item_str(E, s, item)
        if E.const(s, E.S(s, v).cl) != 1:
            single[0] = False
        s.mem[acc] = concat(E, s, s.mem[acc], v)
        return [(s, "c")]

    n = E.const(st, ub) if ub is not None else None
    itv = it
    if n is not None and n <= 4:
        # short: unroll
        rs = []
        k = ("tmp", E.fresh())
        ik = ("tmp", E.fresh())
        st.mem[k] = start
        if it[0] == "mu":
            mu = it
        else:
            st.mem[ik] = it
            mu = ("mu", ((ik, ()),))
        ity2 = E.T[ity]["elem"] if E.T[ity]["k"] == "ref" and it[0] == "mu" else ity
        work = [(st, 0)]
        while work:
            s, j = work.pop()
            for s2, item in it_next(E, s, mu, ity2):
                if item is None:
                    rs.append(s2)
                elif j > n + 1:
                    raise Limit("unroll " + (E.tname(ity2) if ity2 is not None else "?"))
                else:
                    v = item_str(E, s2, item)
                    if E.const(s2, E.S(s2, v).cl) != 1:
                        single[0] = False
                    s2.mem[k] = concat(E, s2, s2.mem[k], v)
                    work.append((s2, j + 1))
        out = []
        for s in rs:
            s.mem.pop(ubk, None)
            s.mem.pop(ik, None)
            u = s.mem.pop(lbk, UN)
            v = s.mem.pop(k)
            if u[0] == "i" and single[0]:
                E.le(s, u, E.S(s, v).cl)
                if s.z.bot:
                    continue
            out.append((s, v))
        if len(out) > 8:
            out = pack(E, out)
        return finish_str(E, out, ext, a)
    res = loop(E, st, itv, ity, body, start)
    out = []
    for s, _, v in res:
        u = s.mem.pop(ubk, UN)
        w = s.mem.pop(lbk, UN)
        if u[0] == "i" and single[0]:
            E.le(s, E.S(s, v).cl, u)
        if w[0] == "i" and single[0]:
            E.le(s, w, E.S(s, v).cl)
        if s.z.bot:
            continue
        if u[0] == "i" and w[0] == "i" and single[0] and E.apart(s, u, w) == 0 and v[0] == "s":
            # exactly so many: keep how the number came about
            i = s.st[v[1]]
            s.st[v[1]] = i._replace(cl=u, bl=u if E.apart(s, i.bl, i.cl) == 0 else i.bl)
        out.append((s, v))
    return finish_str(E, out, ext, a)


def finish_str(E, out, ext, a):
    if not ext:
        return out
    res = []
    for s, v in out:
        E.wr(s, a[0], concat(E, s, get_s(E, s, a[0]), v))
        res.append((s, UNIT))
    return res


@rx(r"^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$|^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$")
def m_collect_vec(E, st, a, x):
    ext = x["path"].endswith("extend")
    ity = x["args_ty"][-1]
    it = a[1] if ext else a[0]
    m = E.iters.get(ity, {})
    if it[0] == "seq":
        r = it
        if ext:
            E.wr(st, a[0], seq_concat(E, st, get_seq(E, st, a[0]), r))
            return [(st, UNIT)]
        return [(st, r)]
    if it[0] == "sh" and it[1][0] == "seq":
        if ext:
            E.wr(st, a[0], seq_concat(E, st, get_seq(E, st, a[0]), it[1]))
            return [(st, UNIT)]
        return [(st, ("seq", it[1][1], None, ("sh", E.elem_t(st, it[1])) if E.elem_t(st, it[1]) is not None else None))]
    if "next" not in m and "into_iter" in m:
        out = []
        for s, v, t in as_iter(E, st, it, ity):
            out.extend(collect_vec(E, s, v, t, ext, a))
        return out
    return collect_vec(E, st, it, ity, ext, a)


def collect_vec(E, st, it, ity, ext, a):
    v0 = deref(E, st, it) if it[0] == "mu" else it
    if v0[0] == "obj" and v0[1] == "chars":
        sv, f, b = v0[3]
        i = E.S(st, sv)
        if i.ex and E.const(st, f) == 0 and E.const(st, b) == 0 and len(i.pre) <= 12:
            r = ("seq", I(len(i.pre)), i.pre, None)
        else:
            ln = E.subi(st, i.cl, E.addi(st, f, b))
            r = ("seq", ln, None, ("C", i.cs, i.tag))
        if ext:
            r = seq_concat(E, st, get_seq(E, st, a[0]), r)
            E.wr(st, a[0], r)
            return [(st, UNIT)]
        return [(st, r)]
    ub = count_ub(E, st, v0, ity)
    ubk = ("tmp", E.fresh())
    st.mem[ubk] = ub if ub is not None else UN

    def body(s, item, acc):
        q = s.mem[acc]
        if q[2] is not None and len(q[2]) < 6:
            s.mem[acc] = ("seq", I(len(q[2]) + 1), q[2] + (item,), None)
        else:
            s.mem[acc] = ("seq", E.addi(s, q[1], I(1)), None, E.tjoin(E.elem_t(s, q), E.gen(s, item)))
        return [(s, "c")]

    res = loop(E, st, it, ity, body, ("seq", Z0, (), None))
    out = []
    for s, _, v in res:
        u = s.mem.pop(ubk, UN)
        if u[0] == "i":
            E.le(s, v[1], u)
        if ext:
            E.wr(s, a[0], seq_concat(E, s, get_seq(E, s, a[0]), v))
            out.append((s, UNIT))
        else:
            out.append((s, v))
    return out


@rx(r"^<std::collections::BTreeSet<T> as std::iter::FromIterator<T>>::from_iter$|^<std::collections::BTreeSet<T> as std::convert::From<\[T; N\]>>::from$|^<std::collections::BTreeSet<T, A> as std::iter::Extend<.*>>::extend$")
def m_collect_set(E, st, a, x):
    ext = x["path"].endswith("extend")
    src = a[1] if ext else a[0]
    if src[0] == "seq":
        t = E.elem_t(st, src)
        n = E.newint(st, 0, SMAX)
        E.le(st, n, src[1])
        if (E.lb(st, src[1]) or 0) >= 1:
            E.le(st, I(1), n)
        v = ("obj", "set", x["dty"], (("tm", t), n))
        if not ext:
            return [(st, v)]
    ity = x["args_ty"][-1]

    def body(s, item, acc):
        q = s.mem[acc]
        s.mem[acc] = ("seq", E.addi(s, q[1], I(1)), None, E.tjoin(q[3], E.gen(s, item)))
        return [(s, "c")]

    out = []
    for s, _, q in [r for s_, v_, t_ in as_iter(E, st, src, ity) for r in loop(E, s_, v_, t_, body, ("seq", Z0, None, None))]:
        n = E.newint(s, 0, SMAX)
        E.le(s, n, q[1])
        if (E.lb(s, q[1]) or 0) >= 1:
            E.le(s, I(1), n)
        if ext:
            o = deref(E, s, a[0])
            t = E.tjoin(o[3][0][1], q[3])
            n2 = E.newint(s, 0, SMAX)
            E.le(s, o[3][1], n2)
            E.wr(s, a[0], ("obj", "set", o[2], (("tm", t), n2)))
            out.append((s, UNIT))
        else:
            out.append((s, ("obj", "set", x["dty"], (("tm", q[3]), n))))
    return out


# ------------------------------------------------------------- maps and sets
@rx(r"^std::collections::BTreeMap::<K, V>::new$|^<std::collections::BTreeMap<K, V.*> as std::default::Default>::default$")
def m_mapnew(E, st, a, x):
    return [(st, ("obj", "map", x["dty"], (("tm", None), ("tm", None), Z0)))]


@rx(r"^std::collections::BTreeSet::<T>::new$|^<std::collections::BTreeSet<T> as std::default::Default>::default$")
def m_setnew(E, st, a, x):
    return [(st, ("obj", "set", x["dty"], (("tm", None), Z0)))]


@rx(r"^<std::collections::BTreeMap<K, V> as std::convert::From<\[\(K, V\); N\]>>::from$")
def m_mapfrom(E, st, a, x):
    s = get_seq(E, st, a[0])
    k = v = None
    t = E.elem_t(st, s)
    if t is not None and t[0] == "agg":
        k, v = t[1]
    n = E.newint(st, 0, SMAX)
    E.le(st, n, s[1])
    keys = frozenset()
    if s[2] is not None:
        keys = frozenset(const_key(E, st, q[1][0]) for q in s[2] if q[0] == "agg") - {None}
        if keys:
            E.le(st, I(len(keys)), n)
    return [(st, ("obj", "map", x["dty"], (("tm", k, keys) if keys else ("tm", k), ("tm", v), n)))]


def const_key(E, st, v):
    """a fieldless enum constant as a map key"""
    v = deref(E, st, v)
    if v[0] == "en" and len(v[1]) == 1 and not v[1][0][1]:
        return v[1][0][0]
    return None


def has_key(E, st, o, k):
    """the map surely contains the key"""
    if len(o[3][0]) < 3:
        return False
    k = deref(E, st, k)
    if k[0] == "top":
        k = E.expand(st, k[1])
    return k[0] == "en" and all(not f and j in o[3][0][2] for j, f in k[1])


def get_obj(E, st, v, kind):
    o = deref(E, st, v)
    if o[0] == "top":
        o = E.expand(st, o[1])
    if o[0] == "obj" and o[1] == kind:
        return o
    return None


@rx(r"^std::collections::BTreeMap::<K, V, A>::(get|get_mut|contains_key|get_key_value|first_key_value|last_key_value)$")
def m_mapget(E, st, a, x):
    o = get_obj(E, st, a[0], "map")
    op = x["path"].split("::")[-1]
    ev = E.hooks.get("mapget")
    if ev:
        ev(E, st, a, x)
    if o is None:
        return None
    kt, vt = o[3][0][1], o[3][1][1]
    out = []
    if not (len(a) > 1 and has_key(E, st, o, a[1])):
        s2 = st.copy()
        out = [(s2, FALSE if op == "contains_key" else NONE)]
    if kt is None or vt is None or E.const(st, o[3][2]) == 0:
        return out
    E.le(st, I(1), o[3][2])
    if op == "contains_key":
        out.append((st, TRUE))
    elif op == "get":
        out.append((st, SOME(("sh", E.instantiate(st, vt)))))
    elif op == "get_mut":
        out.append((st, SOME(("mu", ((E.cell(st, E.instantiate(st, vt), a[0][1]), ()),)))))
    else:
        out.append((st, SOME(("agg", (("sh", E.instantiate(st, kt)), ("sh", E.instantiate(st, vt)))))))
    return out


@rx(r"^<std::collections::BTreeMap<K, V, A> as std::ops::Index<&Q>>::index$")
def m_mapindex(E, st, a, x):
    o = get_obj(E, st, a[0], "map")
    E.oblig(st, o is not None and has_key(E, st, o, a[1]), "map-index", "BTreeMap[]")
    if o is None or o[3][1][1] is None:
        return []
    return [(st, ("sh", E.instantiate(st, o[3][1][1])))]


@rx(r"^std::collections::BTreeMap::<K, V, A>::insert$")
def m_mapinsert(E, st, a, x):
    o = get_obj(E, st, a[0], "map")
    if o is None:
        return None
    k = E.tjoin(o[3][0][1], E.gen(st, a[1]))
    v = E.tjoin(o[3][1][1], E.gen(st, a[2]))
    old = o[3][1][1]
    n = E.newint(st, 1, SMAX)
    E.le(st, o[3][2], n)
    ks = o[3][0][2] if len(o[3][0]) > 2 else frozenset()
    ck = const_key(E, st, a[1])
    ks = ks | {ck} if ck is not None else ks
    E.wr(st, a[0], ("obj", "map", o[2], (("tm", k, ks) if ks else ("tm", k), ("tm", v), n)))
    if old is None:
        return [(st, NONE)]
    s2 = st.copy()
    return [(st, SOME(E.instantiate(st, old))), (s2, NONE)]


@rx(r"^std::collections::BTreeMap::<K, V, A>::entry$")
def m_mapentry(E, st, a, x):
    return [(st, ("obj", "entry", x["dty"], (a[0], a[1])))]


@rx(r"^std::collections::btree_map::Entry::<'a, K, V, A>::(or_default|or_insert|or_insert_with)$")
def m_ordefault(E, st, a, x):
    o = a[0]
    if o[0] != "obj":
        return None
    mref, key = o[3]
    m = get_obj(E, st, mref, "map")
    if m is None:
        return None
    vty = E.T[x["dty"]]["elem"]
    op = x["path"].split("::")[-1]
    if op == "or_default":
        t = E.T[vty]
        if t["k"] == "adt" and t["path"].endswith("vec::Vec"):
            d = ("seq", Z0, (), None)
        elif E.is_string_ty(t):
            d = E.conststr(st, "")
        elif t["k"] == "int":
            d = Z0
        else:
            d = E.expand(st, vty)
    elif op == "or_insert":
        d = a[1]
    else:
        d = E.expand(st, vty)
    kt = E.tjoin(m[3][0][1], E.gen(st, key))
    vt = E.tjoin(m[3][1][1], E.gen(st, d))
    n = E.newint(st, 1, SMAX)
    E.le(st, m[3][2], n)
    E.wr(st, mref, ("obj", "map", m[2], (("tm", kt), ("tm", vt), n)))
    cell = E.cell(st, E.instantiate(st, vt), mref[1] if mref[0] == "mu" else None)
    return [(st, ("mu", ((cell, ()),)))]


@rx(r"^std::collections::BTreeMap::<K, V, A>::(values_mut|values|keys|iter|iter_mut|into_values|into_keys)$|^<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter$|^<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter$")
def m_mapiter(E, st, a, x):
    op = x["path"].split("::")[-1]
    o = get_obj(E, st, a[0], "map")
    if o is None:
        return None
    kt, vt = o[3][0][1], o[3][1][1]
    n = o[3][2]
    if kt is None or vt is None:
        return [(st, ("obj", "intoiter", x["dty"], (("seq", Z0, (), None), Z0, Z0)))]
    if op in ("values_mut", "iter_mut"):
        return [(st, ("obj", "mapmut", x["dty"], (a[0], I(1 if op == "iter_mut" else 0))))]
    if op in ("values",):
        t = ("sh", vt)
    elif op == "keys":
        t = ("sh", kt)
    elif op == "into_values":
        t = vt
    elif op == "into_keys":
        t = kt
    elif "&'a" in x["path"] or op == "iter":
        t = ("agg", (("sh", kt), ("sh", vt)))
    else:
        t = ("agg", (kt, vt))
    return [(st, ("obj", "intoiter", x["dty"], (("seq", n, None, t), Z0, Z0)))]


@rx(r"^<std::collections::btree_map::(Values|Keys|Iter|IntoIter|IntoKeys|IntoValues)<.*> as std::iter::Iterator>::next$|^<std::collections::btree_set::(Iter|IntoIter)<.*> as std::iter::Iterator>::next$")
def m_mapiter_next(E, st, a, x):
    o = deref(E, st, a[0])
    if o[0] == "obj" and o[1] == "setdiff":
        pass
    return iter_next(E, st, a, False)


@rx(r"^<std::collections::btree_map::(ValuesMut|IterMut)<.*> as std::iter::Iterator>::next$")
def m_mapmut_next(E, st, a, x):
    o = deref(E, st, a[0])
    if o[0] == "obj" and o[1] == "intoiter":
        return iter_next(E, st, a, False)
    if o[0] != "obj" or o[1] != "mapmut":
        return None
    m = get_obj(E, st, o[3][0], "map")
    s2 = st.copy()
    if m is None or m[3][1][1] is None:
        return [(s2, NONE)]
    cell = E.cell(st, E.instantiate(st, m[3][1][1]), o[3][0][1])
    r = ("mu", ((cell, ()),))
    v = ("agg", (("sh", E.instantiate(st, m[3][0][1])), r)) if o[3][1][2] else r
    return [(st, SOME(v)), (s2, NONE)]


@rx(r"^std::collections::BTree(Map|Set)::<.*>::(is_empty|len)$")
def m_maplen(E, st, a, x):
    o = deref(E, st, a[0])
    if o[0] == "top":
        o = E.expand(st, o[1])
    if o[0] != "obj":
        return None
    n = o[3][-1]
    if x["path"].endswith("len"):
        return [(st, n)]
    return [(s, ("b", b)) for s, b in E.cmp_int(st, "Eq", n, Z0)]


@rx(r"^std::collections::BTreeSet::<T, A>::(contains|get)$")
def m_setcontains(E, st, a, x):
    o = get_obj(E, st, a[0], "set")
    if o is None:
        return None
    op = x["path"].split("::")[-1]
    s2 = st.copy()
    out = [(s2, FALSE if op == "contains" else NONE)]
    t = o[3][0][1]
    if t is not None and E.const(st, o[3][1]) != 0:
        E.le(st, I(1), o[3][1])
        out.append((st, TRUE if op == "contains" else SOME(("sh", E.instantiate(st, t)))))
    return out


@rx(r"^std::collections::BTreeSet::<T, A>::(insert|replace)$")
def m_setinsert(E, st, a, x):
    o = get_obj(E, st, a[0], "set")
    if o is None:
        return None
    old = o[3][0][1]
    t = E.tjoin(old, E.gen(st, a[1]))
    n = E.newint(st, 1, SMAX)
    E.le(st, o[3][1], n)
    E.le(st, n, o[3][1], 1)
    E.wr(st, a[0], ("obj", "set", o[2], (("tm", t), n)))
    if x["path"].endswith("insert"):
        return unknown_bool(st) if old is not None else [(st, TRUE)]
    s2 = st.copy()
    return [(st, NONE)] + ([(s2, SOME(E.instantiate(s2, old)))] if old is not None else [])


@rx(r"^std::collections::BTreeSet::<T, A>::clear$")
def m_setclear(E, st, a, x):
    o = get_obj(E, st, a[0], "set")
    if o is None:
        return None
    E.wr(st, a[0], ("obj", "set", o[2], (("tm", None), Z0)))
    return [(st, UNIT)]


@rx(r"^std::collections::BTreeSet::<T, A>::iter$|^<&'a std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter$|^<std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter$")
def m_setiter(E, st, a, x):
    o = get_obj(E, st, a[0], "set")
    if o is None:
        return None
    t = o[3][0][1]
    if t is None:
        return [(st, ("obj", "intoiter", x["dty"], (("seq", Z0, (), None), Z0, Z0)))]
    if not x["path"].startswith("<std::collections"):
        t = ("sh", t)
    return [(st, ("obj", "intoiter", x["dty"], (("seq", o[3][1], None, t), Z0, Z0)))]


@rx(r"^std::collections::BTreeSet::<T, A>::(difference|intersection|union|symmetric_difference)$")
def m_setops(E, st, a, x):
    o = get_obj(E, st, a[0], "set")
    p = get_obj(E, st, a[1], "set")
    if o is None or p is None:
        return None
    op = x["path"].split("::")[-1]
    t = o[3][0][1]
    if op in ("union", "symmetric_difference"):
        t = E.tjoin(t, p[3][0][1])
    n = E.newint(st, 0, SMAX)
    if op in ("difference", "intersection"):
        E.le(st, n, o[3][1])
    if t is None:
        return [(st, ("obj", "intoiter", x["dty"], (("seq", Z0, (), None), Z0, Z0)))]
    return [(st, ("obj", "intoiter", x["dty"], (("seq", n, None, ("sh", t)), Z0, Z0)))]


@rx(r"^<std::collections::btree_set::(Difference|Intersection|Union|SymmetricDifference)<.*> as std::iter::Iterator>::next$")
def m_setops_next(E, st, a, x):
    return iter_next(E, st, a, False)


# ------------------------------------------------------------- formatting
@rx(r"^core::fmt::rt::Argument::<'_>::new_(display|debug|lower_hex|upper_hex)$")
def m_fmtarg(E, st, a, x):
    if x["path"].endswith("new_display"):
        return [(st, ("obj", "fmtarg", x["dty"], (a[0],)))]
    return [(st, ("obj", "fmtarg", x["dty"], (UN,)))]


@rx(r"^std::fmt::Arguments::<'a>::new$")
def m_fmtargs(E, st, a, x):
    return [(st, ("obj", "fmt", x["dty"], (a[0], a[1])))]


@rx(r"^std::fmt::Arguments::<'a>::from_str(_nonconst)?$")
def m_fmtstr(E, st, a, x):
    return [(st, ("obj", "fmtstr", x["dty"], (a[0],)))]


def display(E, st, v):
    v = deref(E, st, v)
    if v[0] == "s":
        return v
    if v[0] == "c":
        return charstr(E, st, v)
    if v[0] == "i":
        lo = E.lb(st, v)
        return E.newstr(st, E.A.DIGIT | (0 if lo is not None and lo >= 0 else E.A.of("-")), 1, 20, 1, 20)
    return E.newstr(st, E.A.ALL)


@rx(r"^std::fmt::format$|^alloc::fmt::format$")
def m_format(E, st, a, x):
    o = a[0]
    if o[0] != "obj":
        return [(st, E.newstr(st, E.A.ALL))]
    if o[1] == "fmtstr":
        return [(st, get_s(E, st, o[3][0]))]
    tm = deref(E, st, o[3][0])
    args = get_seq(E, st, o[3][1])
    if tm[0] != "seq" or tm[2] is None or args[2] is None:
        return [(st, E.newstr(st, E.A.ALL))]
    by = []
    for b in tm[2]:
        k = E.const(st, b) if b[0] == "i" else None
        if k is None:
            return [(st, E.newstr(st, E.A.ALL))]
        by.append(k)
    cur = E.conststr(st, "")
    p = 0
    argi = 0
    while p < len(by):
        b = by[p]
        if b == 0:
            break
        if b < 0x80:
            txt = bytes(by[p + 1 : p + 1 + b]).decode("utf-8", "replace")
            cur = concat(E, st, cur, E.conststr(st, txt))
            p += 1 + b
        elif b == 0x80:
            n = by[p + 1] | by[p + 2] << 8
            txt = bytes(by[p + 3 : p + 3 + n]).decode("utf-8", "replace")
            cur = concat(E, st, cur, E.conststr(st, txt))
            p += 3 + n
        elif b == 0xC0:
            if argi >= len(args[2]):
                return [(st, E.newstr(st, E.A.ALL))]
            av = args[2][argi]
            argi += 1
            v = av[3][0] if av[0] == "obj" else UN
            cur = concat(E, st, cur, display(E, st, v))
            p += 1
        else:
            return [(st, E.newstr(st, E.A.ALL))]
    return [(st, cur)]


@model("std::hint::must_use", "std::hint::black_box", "std::convert::identity")
def m_ident(E, st, a, x):
    return [(st, a[0])]


@rx(r"^std::fmt::Formatter::<'a>::|^std::fmt::Formatter::<'_>::|as std::fmt::(Display|Debug|Write)>::(fmt|write_fmt)$|^std::io::|^<.* as thiserror::")
def m_fmtmisc(E, st, a, x):
    if x["f"] is not None and x["f"].get("local") and "blocks" in x["f"]:
        return None
    if x["dty"] is not None:
        return [(st, E.expand(st, x["dty"]))]
    return [(st, UN)]


# ------------------------------------------------------------- callables etc
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_fncall(E, st, a, x):
    args = a[1]
    if args[0] == "agg":
        return E.call_value(st, a[0], list(args[1]), x["dty"])
    if args[0] == "un":
        return E.call_value(st, a[0], [], x["dty"])
    return None


@model("std::mem::replace")
def m_memreplace(E, st, a, x):
    old = E.rd(st, a[0])
    E.wr(st, a[0], a[1])
    return [(st, old)]


@model("std::mem::take")
def m_memtake(E, st, a, x):
    old = E.rd(st, a[0])
    t = old
    if old[0] == "s":
        n = E.conststr(st, "")
    elif old[0] == "seq":
        n = ("seq", Z0, (), None)
    elif old[0] == "i":
        n = Z0
    elif old[0] in ("b", "bz"):
        n = FALSE
    elif old[0] == "en":
        n = NONE
    elif old[0] == "obj" and old[1] == "set":
        n = ("obj", "set", old[2], (("tm", None), Z0))
    else:
        n = E.expand(st, x["dty"])
    E.wr(st, a[0], n)
    return [(st, old)]


@model("std::mem::swap")
def m_memswap(E, st, a, x):
    p, q = E.rd(st, a[0]), E.rd(st, a[1])
    E.wr(st, a[0], q)
    E.wr(st, a[1], p)
    return [(st, UNIT)]


@rx(r"^std::option::Option::<&T>::(cloned|copied)$|^std::option::Option::<&mut T>::(cloned|copied)$")
def m_optcloned(E, st, a, x):
    v = a[0]
    if v[0] == "top":
        v = E.expand(st, v[1])
    if v[0] != "en":
        return None
    out = []
    for j, fs in v[1]:
        out.append((j, tuple(E.rd(st, q) if q[0] in ("sh", "mu") else q for q in fs)))
    return [(st, ("en", tuple(out)))]


@rx(r"^std::option::Option::<T>::(as_ref|as_mut|as_deref)$")
def m_optasref(E, st, a, x):
    v = E.rd(st, a[0])
    if v[0] == "top":
        v = E.expand(st, v[1])
    if v[0] != "en" or x["path"].endswith("as_mut"):
        return None
    if len(v[1]) > 1:
        return None
    j, fs = v[1][0]
    return [(st, ("en", ((j, tuple(("sh", q) for q in fs)),)))]


@rx(r"^<.* as std::clone::Clone>::clone$|^std::clone::Clone::clone$")
def m_anyclone(E, st, a, x):
    if x["f"] is not None and "blocks" in x["f"]:
        # derived / local clones are inlined
        return None
    v = E.rd(st, a[0]) if a[0][0] in ("sh", "mu") else a[0]
    return [(st, v)]


@rx(r"^std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::(eq|ne)$")
def m_refeq(E, st, a, x):
    va, vb = deref(E, st, a[0]), deref(E, st, a[1])
    if va[0] in ("s", "c", "i", "b", "bz") and vb[0] == va[0]:
        return m_peq(E, st, a, x)
    return None


@rx(r"^std::cell::|^std::sync::|^std::rc::")
def m_opaque(E, st, a, x):
    return None


@rx(r"^lazy_static::lazy::Lazy::<T>::get$|^std::sync::(Once|OnceLock|LazyLock)")
def m_lazy(E, st, a, x):
    if len(a) == 2 and a[1][0] in ("fn", "clo"):
        key = ("lazy", a[1][:2])
        t = E.lazies.get(key)
        if t is None:
            # the initialiser runs once, before anything else it does not depend on
            for s, v in E.call_value(st.copy(), a[1], [], E.T[x["dty"]]["elem"]):
                if s.z.bot:
                    continue
                t = E.tjoin(t, E.gen(s, v))
            E.lazies[key] = t if t is not None else ("top", E.T[x["dty"]]["elem"])
            t = E.lazies[key]
        return [(st, ("sh", E.instantiate(st, t)))]
    return [(st, E.expand(st, x["dty"]))] if x["dty"] is not None else None


@rx(r"^regex::Regex::is_match$")
def m_ismatch(E, st, a, x):
    return unknown_bool(st)


@rx(r"^<regex::Error as std::|^<std::fs::|^std::fs::|^std::path::|^<std::path::|^std::ffi::|^<std::ffi::|^regex::Regex::new$|^enum_iterator::|^<enum_iterator::")
def m_opaque_ok(E, st, a, x):
    if x["dty"] is not None:
        return [(st, E.expand(st, x["dty"]))]
    return None


@rx(r"^std::char::encode_utf8_raw$|char::methods::encode_utf8_raw")
def m_encutf8(E, st, a, x):
    return [(st, ("sh", charstr(E, st, E.newchar(st, E.A.ALL))))]


@rx(r"<usize as std::iter::Step>::forward_unchecked$")
def m_stepfwd(E, st, a, x):
    return [(st, E.addi(st, a[0], a[1]))]


@rx(r"^std::intrinsics::(add_with_overflow|sub_with_overflow)$|core::num::<impl \w+>::overflowing_(add|sub)$")
def m_ovf(E, st, a, x):
    r = E.addi(st, a[0], a[1]) if "add" in x["path"] else E.subi(st, a[0], a[1])
    lo, hi = E.lb(st, r), E.ub(st, r)
    if lo is not None and lo >= 0 and hi is not None:
        return [(st, ("agg", (r, FALSE)))]
    if "sub" in x["path"]:
        out = []
        for s, b in E.cmp_int(st, "Le", a[1], a[0]):
            out.append((s, ("agg", (E.subi(s, a[0], a[1]) if b else E.newint(s, 0), ("b", not b)))))
        return out
    s2 = st.copy()
    return [(st, ("agg", (r, FALSE))), (s2, ("agg", (E.newint(s2, 0), TRUE)))]


PANICS = re.compile(r"^(core|std)::(panicking|option|result|slice|str|rt)::.*(panic|fail|unreachable|todo|unimplemented|begin_panic)|^std::rt::|slice_error_fail|^std::process::(exit|abort)")


@rx(r"^(core|std)::panicking::|::unwrap_failed|::expect_failed|slice_error_fail|_fail$|^std::rt::(begin_)?panic|^std::process::(exit|abort)$|unwrap_failed_inner")
def m_panic(E, st, a, x):
    p = x["path"]
    inner = E.stack[-1][0] if E.stack else None
    # name the caller-visible operation (e.g. Option::unwrap)
    via = ""
    for f, _ in reversed(E.stack):
        if f["local"]:
            break
        via = f["path"]
    E.oblig(st, False, "panic", via or p.split("::")[-1])
    return []


def install(E):
    E.models = dict(MODELS)
    E.model_rx = list(RX)
