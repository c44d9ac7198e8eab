"""Further library functions (loaded after models.py)."""
from .core import UN, UNIT, TRUE, FALSE, Z0, I, SMAX, SI
from .models import (
    NONE, SOME, OK, ERR, MODELS, RX, model, rx, mkstr, concat, charstr, substr, get_s, get_c, get_seq, deref, loop, callf, fcell, closed,
    as_iter, unknown_bool, str_eq, boundary, subseq, seq_concat, seq_at, elem_ref, cw, m_seqcontains, split_opt, get_obj, seq_eq, m_collect_string,
)

FIRST = []


def first(pat):
    """a pattern tried before those of models.py"""
    import re

    def deco(fn):
        FIRST.append((re.compile(pat), fn))
        return fn

    return deco


def ity_of(E, name):
    c = E.tyname.get(("iter", name))
    if c is None:
        c = next((t for t in E.iters if E.T[t]["k"] == "adt" and E.T[t]["path"] == name and "next" in E.iters[t]), -1)
        E.tyname[("iter", name)] = c
    return None if c == -1 else c


# ------------------------------------------------------------------ strings
@model("std::str::<impl str>::repeat", "alloc::str::<impl str>::repeat")
def m_repeat(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    n = a[1]
    k = E.const(st, n)
    if i.k == "" or k == 0:
        return [(st, E.conststr(st, ""))]
    if k is not None and i.k is not None and len(i.k) * k <= 64:
        return [(st, E.conststr(st, i.k * k))]
    one = E.const(st, i.cl)
    out = []
    for s, pos in E.cmp_int(st, "Le", I(1), n):
        if not pos:
            out.append((s, E.conststr(s, "")))
            continue
        if one == 1 and i.bl == i.cl:
            cl = bl = n
        else:
            ul, un = E.ub(s, i.cl), E.ub(s, n)
            lo = (E.lb(s, i.cl) or 0) * max(1, E.lb(s, n) or 1)
            cl = E.newint(s, lo, ul * un if ul is not None and un is not None else SMAX)
            E.le(s, i.cl, cl)
            if (E.lb(s, i.cl) or 0) >= 1:
                E.le(s, n, cl)
            if i.bl == i.cl:
                bl = cl
            else:
                bl = E.newint(s, 0, SMAX)
                E.le(s, cl, bl)
                E.le(s, i.bl, bl)
        m = E.lb(s, n) or 1
        pre, suf = i.pre, i.suf
        if i.ex and len(i.pre) and len(i.pre) * m <= 6:
            pre = suf = i.pre * m
        out.append((s, mkstr(E, s, bl, cl, i.cs, pre[:6], suf[-6:], False, None, (), i.tag)))
    return out


@model("std::string::String::split_off")
def m_split_off(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    ok = E.known_le(st, a[1], i.bl) and boundary(E, st, sv, a[1])
    E.oblig(st, ok, "str-boundary", "split_off")
    if not ok and not E.le(st, a[1], i.bl):
        return []
    h = substr(E, st, sv, Z0, a[1])
    t = substr(E, st, sv, a[1], E.S(st, sv).bl)
    E.wr(st, a[0], h)
    return [(st, t)]


@model("std::string::String::retain")
def m_sretain(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    ity = ity_of(E, "std::str::Chars")
    if ity is None:
        return None
    f, r = fcell(E, st, a[1])
    it = ("obj", "chars", ity, (sv, Z0, Z0))
    nk = ("tmp", E.fresh())
    st.mem[nk] = sv

    def body(s, item, acc):
        k = ("tmp", E.fresh())
        s.mem[k] = item
        out = []
        for s2, v in callf(E, s, f, [item]):
            for s3, b in E.split_bool(s2, v):
                it = s3.mem.pop(k)
                if b:
                    s3.mem[acc] = concat(E, s3, s3.mem[acc], charstr(E, s3, it))
                out.append((s3, "c"))
        return out

    res = loop(E, st, it, ity, body, E.conststr(st, ""))
    closed(E, res, r)
    out = []
    for s, _, v in res:
        o = s.mem.pop(nk)
        E.le(s, E.S(s, v).cl, E.S(s, o).cl)
        E.le(s, E.S(s, v).bl, E.S(s, o).bl)
        E.wr(s, a[0], v)
        out.append((s, UNIT))
    return out


@model("core::str::<impl str>::is_ascii")
def m_s_is_ascii(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    if i.cs & ~E.A.ASCII == 0:
        return [(st, TRUE)]
    s2 = st.copy()
    out = []
    known = any(E.cset(st, c) & E.A.ASCII == 0 for c in i.pre + i.suf)
    if E.le(s2, I(1), i.cl):
        out.append((s2, FALSE))
    if known:
        return out
    ok = all(E.setcs(st, c, E.A.ASCII) for c in i.pre + i.suf)
    if ok and E.eqi(st, i.bl, i.cl):
        st.st[sv[1]] = E.S(st, sv)._replace(cs=i.cs & E.A.ASCII, bl=i.cl)
        out.append((st, TRUE))
    return out


@rx(r"<impl \[u8\]>::is_ascii$")
def m_b_is_ascii(E, st, a, x):
    return unknown_bool(st)


@model("core::str::<impl str>::eq_ignore_ascii_case")
def m_s_eqic(E, st, a, x):
    ia, ib = E.S(st, get_s(E, st, a[0])), E.S(st, get_s(E, st, a[1]))
    s2 = st.copy()
    out = [(s2, FALSE)]
    if E.eqi(st, ia.bl, ib.bl) and E.eqi(st, ia.cl, ib.cl):
        out.append((st, TRUE))
    return out


@model("std::string::String::from_utf8", "std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8")
def m_fromutf8(E, st, a, x):
    s = get_seq(E, st, a[0])
    t = E.elem_t(st, s)
    A = E.A
    s2 = st.copy()
    out = []
    if t is not None and t[0] == "I" and t[2] is not None and t[2] < 128:
        v = mkstr(E, st, s[1], s[1], A.rng(max(0, t[1] or 0), t[2]))
    else:
        cl = E.newint(st, 0, SMAX)
        E.le(st, cl, s[1])
        E.le(st, s[1], cl, SMAX)
        v = mkstr(E, st, s[1], cl, A.ALL)
        if E.const(st, s[1]) != 0:
            out.append((s2, ERR(("un",))))
    if x["path"].endswith("String::from_utf8"):
        out.append((st, OK(v)))
    else:
        out.append((st, OK(("sh", v))))
    return out


@model("core::str::<impl str>::matches", "core::str::<impl str>::match_indices", "core::str::<impl str>::rmatches", "core::str::<impl str>::rmatch_indices")
def m_matches(E, st, a, x):
    sv = get_s(E, st, a[0])
    i = E.S(st, sv)
    n = E.newint(st, 0, SMAX)
    E.le(st, n, E.addi(st, i.cl, I(1)))
    item = ("sh", ("S", i.cs, 0, E.ub(st, i.bl), 0, E.ub(st, i.cl), None, i.tag))
    if "indices" in x["path"]:
        item = ("agg", (("I", 0, E.ub(st, i.bl)), item))
    return [(st, ("obj", "intoiter", x["dty"], (("seq", n, None, item), Z0, Z0)))]


@rx(r"^<std::str::(R?Matches|R?MatchIndices)<.*> as std::iter::Iterator>::next$|^<std::slice::(ChunksExact|RChunks)<.*> as std::iter::Iterator>::next$")
def m_matches_next(E, st, a, x):
    from .models import iter_next

    return iter_next(E, st, a, False)


@rx(r"<impl str>::escape_(debug|default|unicode)$|std::char::methods::<impl char>::escape_(debug|default|unicode)$")
def m_escape(E, st, a, x):
    sv = E.newstr(st, E.A.ALL)
    return [(st, ("obj", "chars", ity_of(E, "std::str::Chars"), (sv, Z0, Z0)))]


@rx(r"^<std::(str|char)::Escape(Debug|Default|Unicode).* as std::iter::Iterator>::next$")
def m_escape_next(E, st, a, x):
    from .models import chars_next

    return chars_next(E, st, a)


@first(r"std::char::methods::<impl char>::encode_utf8$")
def m_encode_utf8(E, st, a, x):
    c = get_c(E, st, a[0])
    s = get_seq(E, st, a[1])
    v = charstr(E, st, c)
    ok = E.known_le(st, E.S(st, v).bl, s[1])
    E.oblig(st, ok, "slice-range", "encode_utf8")
    if not ok and not E.le(st, E.S(st, v).bl, s[1]):
        return []
    E.wr(st, a[1], ("seq", s[1], None, ("I", 0, 255)))
    return [(st, ("sh", v))]


@rx(r"^std::string::String::(capacity)$|^std::vec::Vec::<T, A>::(capacity)$|^std::collections::VecDeque::<T, A>::capacity$")
def m_capacity(E, st, a, x):
    if "String" in x["path"]:
        n = E.S(st, get_s(E, st, a[0])).bl
    else:
        n = get_seq(E, st, a[0])[1]
    r = E.newint(st, 0, 1 << 62)
    E.le(st, n, r)
    return [(st, r)]


@rx(r"^<std::string::String as std::iter::Extend<char>>::extend_one$")
def m_sextend_one(E, st, a, x):
    E.wr(st, a[0], concat(E, st, get_s(E, st, a[0]), charstr(E, st, get_c(E, st, a[1]))))
    return [(st, UNIT)]


@rx(r"^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend_one$")
def m_vextend_one(E, st, a, x):
    return MODELS["std::vec::Vec::<T, A>::push"](E, st, a, x)


@rx(r"Extend<.*>>::extend_(reserve|one_unchecked)$|^std::(string::String|vec::Vec::<T, A>|collections::VecDeque::<T, A>)::(reserve|reserve_exact|shrink_to_fit|shrink_to)$")
def m_extend_reserve(E, st, a, x):
    if x["path"].endswith("unchecked"):
        return None
    return [(st, UNIT)]


@rx(r"<impl std::convert::From<&'a (str|std::string::String)> for std::borrow::Cow<'a, str>>::from$|<impl std::convert::From<std::string::String> for std::borrow::Cow<'a, str>>::from$|^<std::borrow::Cow<'a, str> as std::convert::From<.*>>::from$")
def m_cowfrom(E, st, a, x):
    v = get_s(E, st, a[0])
    if a[0][0] in ("sh", "mu"):
        return [(st, ("en", ((0, (("sh", v),)),)))]
    return [(st, ("en", ((1, (v,)),)))]


@rx(r"^<std::borrow::Cow<'_, B> as std::(ops::Deref>::deref|convert::AsRef<.*>>::as_ref)$")
def m_cowderef(E, st, a, x):
    v = deref(E, st, a[0])
    if v[0] == "top":
        v = E.expand(st, v[1])
    if v[0] != "en" or x["dty"] is None or E.T[E.T[x["dty"]]["elem"]]["k"] != "str":
        return None
    out = []
    for k, (j, fs) in enumerate(v[1]):
        s = st if k == len(v[1]) - 1 else st.copy()
        out.append((s, ("sh", get_s(E, s, fs[0]))))
    return out


@rx(r"^std::borrow::Cow::<'_, B>::(is_borrowed|is_owned)$")
def m_cowis(E, st, a, x):
    return unknown_bool(st)


# ---------------------------------------------------------------- sequences
@model("std::vec::Vec::<T, A>::resize")
def m_resize(E, st, a, x):
    s = get_seq(E, st, a[0])
    k = E.const(st, a[1])
    if s[2] is not None and k is not None and k <= 8:
        el = s[2][:k] + (a[2],) * max(0, k - len(s[2]))
        E.wr(st, a[0], ("seq", I(k), el, None))
        return [(st, UNIT)]
    E.wr(st, a[0], ("seq", a[1], None, E.tjoin(E.elem_t(st, s), E.gen(st, a[2]))))
    return [(st, UNIT)]


@rx(r"^core::slice::<impl \[T\]>::split_at(_mut|_checked|_mut_checked)?$")
def m_slice_split_at(E, st, a, x):
    s = get_seq(E, st, a[0])
    chk = x["path"].endswith("checked")
    ok = E.known_le(st, a[1], s[1])
    out = []
    if chk and not ok:
        out.append((st.copy(), NONE))
    if not chk:
        E.oblig(st, ok, "slice-range", "split_at")
    if not E.le(st, a[1], s[1]):
        return out
    h, t = subseq(E, st, s, Z0, a[1]), subseq(E, st, s, a[1], s[1])
    if "_mut" in x["path"]:
        # the halves are written through references: forget the elements
        E.wr(st, a[0], ("seq", s[1], None, ("un",)))
        v = ("agg", tuple(("mu", ((E.cell(st, q), ()),)) for q in (h, t)))
    else:
        v = ("agg", (("sh", h), ("sh", t)))
    out.append((st, SOME(v) if chk else v))
    return out


@rx(r"^core::slice::<impl \[T\]>::split_(first|last)$")
def m_split_first(E, st, a, x):
    s = get_seq(E, st, a[0])
    out = []
    for s2, e in E.cmp_int(st, "Eq", s[1], Z0):
        if e:
            out.append((s2, NONE))
            continue
        last = E.addi(s2, s[1], I(-1))
        if x["path"].endswith("first"):
            h, t = seq_at(E, s2, s, Z0), subseq(E, s2, s, I(1), s[1])
        else:
            h, t = seq_at(E, s2, s, last), subseq(E, s2, s, Z0, last)
        out.append((s2, SOME(("agg", (("sh", h), ("sh", t))))))
    return out


@rx(r"^core::slice::<impl \[T\]>::(starts_with|ends_with)$")
def m_slice_affix(E, st, a, x):
    s, t = get_seq(E, st, a[0]), get_seq(E, st, a[1])
    s2 = st.copy()
    out = []
    if E.const(st, t[1]) != 0:
        out.append((s2, FALSE))
    if not E.le(st, t[1], s[1]):
        return out
    if x["path"].endswith("starts_with") and s[2] is not None and t[2] is not None:
        for p, q in zip(s[2], t[2]):
            p, q = deref(E, st, p), deref(E, st, q)
            if p[0] == "c" and q[0] == "c":
                if not E.setcs(st, p, E.cset(st, q)) or not E.setcs(st, q, E.cset(st, p)):
                    return out
    out.append((st, TRUE))
    return out


@rx(r"^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice|swap_with_slice)$")
def m_copy_slice(E, st, a, x):
    s, t = get_seq(E, st, a[0]), get_seq(E, st, a[1])
    ok = E.known_le(st, s[1], t[1]) and E.known_le(st, t[1], s[1])
    E.oblig(st, ok, "slice-length", "copy_from_slice")
    if not ok and not E.eqi(st, s[1], t[1]):
        return []
    E.wr(st, a[0], ("seq", s[1], t[2], t[3]))
    return [(st, UNIT)]


@first(r"^(core|std)::slice::<impl \[T\]>::rotate_(left|right)$")
def m_rotate(E, st, a, x):
    s = get_seq(E, st, a[0])
    ok = E.known_le(st, a[1], s[1])
    E.oblig(st, ok, "slice-range", "rotate")
    if not ok and not E.le(st, a[1], s[1]):
        return []
    E.wr(st, a[0], ("seq", s[1], None, E.elem_t(st, s)))
    return [(st, UNIT)]


@first(r"^core::slice::<impl \[T\]>::(chunks_exact|rchunks_exact)$")
def m_chunks_exact(E, st, a, x):
    s = get_seq(E, st, a[0])
    k = E.const(st, a[1])
    ok = (E.lb(st, a[1]) or 0) >= 1
    E.oblig(st, ok, "nonzero", "chunks_exact")
    if not ok and not E.le(st, I(1), a[1]):
        return []
    n = E.newint(st, 0, SMAX)
    E.le(st, n, s[1])
    ln = ("I", k, k) if k is not None else ("I", 1, E.ub(st, a[1]))
    item = ("sh", ("seq", ln, None, E.elem_t(st, s)))
    return [(st, ("obj", "intoiter", x["dty"], (("seq", n, None, item), Z0, Z0)))]


@rx(r"^std::array::from_fn$|^core::array::from_fn$")
def m_array_from_fn(E, st, a, x):
    t = E.T[x["dty"]]
    n = t.get("len")
    if not isinstance(n, int) or n > 12:
        return None
    f, r = fcell(E, st, a[0])
    states = [(st, ())]
    for k in range(n):
        nx = []
        for s, el in states:
            for s2, v in callf(E, s, f, [I(k)]):
                nx.append((s2, el + (v,)))
        states = nx
        if len(states) > 32:
            return None
    res = [(s, ("seq", I(n), el, None)) for s, el in states]
    return closed(E, res, r)


@rx(r"^<&'?\w* ?(u|i)(\d+|size) as std::ops::(Add|Sub|Mul|Div|Rem)(<.*>)?>::\w+$|^<(u|i)(\d+|size) as std::ops::(Add|Sub|Mul|Div|Rem)<&.*>>::\w+$|std::ops::arith::<impl std::ops::(Add|Sub|Mul|Div|Rem)<.*> for .*>::\w+$|core::ops::arith::<impl .*(Add|Sub|Mul|Div|Rem)<.*> for .*>::\w+$")
def m_refarith(E, st, a, x):
    op = x["path"].split("::")[-1]
    l, r = (E.as_int(st, deref(E, st, v)) for v in a[:2])
    if l is None or r is None or x["dty"] is None or E.T[x["dty"]]["k"] != "int":
        return None
    lo, hi = E.intrange(x["dty"])
    if op in ("div", "rem"):
        E.oblig(st, (E.lb(st, r) or 0) >= 1 or (E.ub(st, r) is not None and E.ub(st, r) <= -1), "div", op)
        if not E.le(st, I(1), r) and lo == 0:
            return []
        k, u, d = E.const(st, r), E.ub(st, l), E.lb(st, l)
        v = E.newint(st, lo, hi)
        if lo == 0:
            if op == "div":
                E.le(st, v, l)
                if k and u is not None:
                    E.le(st, v, I(u // k))
                if k and d is not None:
                    E.le(st, I(d // k), v)
            else:
                E.le(st, v, l)
                E.le(st, v, r, -1)
        return [(st, v)]
    if op == "mul":
        cl, cr = E.const(st, l), E.const(st, r)
        ul, ur = E.ub(st, l), E.ub(st, r)
        ok = lo == 0 and ul is not None and ur is not None and ul * ur <= hi
        E.oblig(st, ok, "overflow:Mul", "")
        return [(st, E.newint(st, max(lo, (E.lb(st, l) or 0) * (E.lb(st, r) or 0)) if lo == 0 else lo, min(hi, ul * ur) if ok else hi))]
    v = E.addi(st, l, r) if op == "add" else E.subi(st, l, r)
    u, d = E.ub(st, v), E.lb(st, v)
    ok = u is not None and d is not None and u <= hi and d >= lo
    E.oblig(st, ok, "overflow:" + op.capitalize(), "")
    if not ok and not (E.le(st, v, I(hi)) and E.le(st, I(lo), v)):
        return []
    return [(st, v)]


@rx(r"^std::cell::RefCell::<T>::(borrow|borrow_mut)$")
def m_refcell(E, st, a, x):
    E.oblig(st, False, "refcell-borrow", x["path"].split("::")[-1])
    return None


@rx(r"^<std::collections::BTreeMap<K, V, A> as std::iter::Extend<.*>>::extend$|^std::collections::BTreeMap::<K, V, A>::append$")
def m_mapextend(E, st, a, x):
    m = get_obj(E, st, a[0], "map")
    if m is None:
        return None
    o = get_obj(E, st, a[1], "map") if a[1][0] in ("sh", "mu", "obj", "top") else None
    args = E.T[m[2]]["args"]
    if o is not None:
        k, v = E.tjoin(m[3][0][1], o[3][0][1]), E.tjoin(m[3][1][1], o[3][1][1])
    else:
        k, v = ("top", args[0]), ("top", args[1])
    n = E.newint(st, 0, SMAX)
    E.le(st, m[3][2], n)
    E.wr(st, a[0], ("obj", "map", m[2], (("tm", k) + m[3][0][2:], ("tm", v), n)))
    if a[1][0] == "mu":
        E.wr(st, a[1], ("obj", "map", m[2], (("tm", None), ("tm", None), Z0)))
    return [(st, UNIT)]


# ------------------------------------------------------------------- tuples
@rx(r"^(core|std)::tuple::<impl std::default::Default for \(.*\)>::default$")
def m_tupledef(E, st, a, x):
    def d(ty):
        t = E.T[ty]
        if t["k"] == "int":
            return Z0
        if t["k"] == "bool":
            return FALSE
        if E.is_string_ty(t):
            return E.conststr(st, "")
        if t["k"] == "adt" and t["path"].endswith("vec::Vec"):
            return ("seq", Z0, (), None)
        return E.expand(st, ty)

    t = E.T[x["dty"]]
    el = t.get("elems")
    if t["k"] != "tuple" or not el:
        return None
    return [(st, ("agg", tuple(d(e) for e in el)))]


def install(E):
    E.models = dict(MODELS)
    E.model_rx = FIRST + list(RX)
