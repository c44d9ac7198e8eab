"""Shape of codes: length, alphabet and first character of every returned code."""
import itertools

import an
from engine.models import SOME, NONE
from engine.core import *
from an import Anchor, run, unref
from engine.core import *

RULE = (
    "Abstract interpretation of the code-producing function on an unconstrained string, with the encoder built by its public constructors; "
    "for every abstract return state the code's character count (zone bounds), its character set and its first character are compared with the stated shape."
)


def build(P, E, st, path, args, impl_self=None):
    """values returned by a constructor: [(state, value)]"""
    f = None
    for g in P.D["fns"]:
        if g["local"] and g["path"] == path and "blocks" in g:
            f = g
    if f is None:
        raise Anchor("no constructor " + path)
    return E.run_body(f, st, args)


class Case:
    """one encoder configuration: produces [(state, self value, info)]"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def by_ctor(path, mk):
    def go(P, E):
        out = []
        for st, args, info in mk(P, E):
            key = ("tmp", "info%d" % E.fresh())
            st.mem[key] = ("agg", tuple(info))
            for s, v in build(P, E, st, path, args):
                out.append((s, v, s.mem.get(key)[1], key))
        return out

    return go


def const_mappings(P, prefix):
    for c in P.D["consts"]:
        v = c["v"]
        if isinstance(v, dict) and "a" in v and len(v["a"]) == 26 and c["path"].startswith(prefix) and "char; 26" in c["ty"]:
            yield c


def analyse(P, rep, name, f, E, insts, judge, pre=None):
    """insts: [(state, self, info, key)]; judge(E, st, value, info, tag)"""
    if not insts:
        rep.undec(name, "no instance")
    for n, (st, selfv, info, ik) in enumerate(insts):
        args = [("sh", selfv)]
        for i in range(1, f["argc"]):
            args.append(E.deep_expand(st, ("top", f["locals"][i + 1])))
        if pre and pre(E, st, args) is False:
            continue
        ak = ("tmp", "args%d" % E.fresh())
        st.mem[ak] = ("agg", tuple(args))
        for s, v in E.run_body(f, st, args):
            if s.z.bot:
                continue
            inf = s.mem[ik][1]
            judge(E, s, v, inf, s.mem[ak][1])
    rep.analysed.update(P.F[i]["path"] for i in E.analysed if i in P.F and P.F[i]["local"])
    rep.notes.update(E.notes)


def judge_str(P, rep, E, s, v, name, f, lo=None, hi=None, alphabet=None, first=None, allow_empty=False, rest=None, never=None):
    """lo/hi: int or linear value; alphabet/first/rest: strings of characters"""
    und = "imp" in s.flags
    where = "%s:%s" % (f["file"], f["line"])
    v = unref(E, s, v)
    if v[0] == "top":
        v = E.expand(s, v[1])
    if v[0] != "s":
        rep.undec(name + "|value", "not a string value: %s" % (v[0],))
        return
    i = E.S(s, v)
    if allow_empty and E.ub(s, i.cl) == 0:
        rep.ok(name + "|empty")
        return
    if allow_empty:
        # exclude the empty string and look at the rest
        s = s.copy()
        if not E.le(s, I(1), i.cl):
            return
        i = E.S(s, v)

    def lin(x):
        return x if isinstance(x, tuple) else I(x)

    if lo is not None:
        rep.check(name + "|at least", E.known_le(s, lin(lo), i.cl), "%s: the code may be shorter than required (proved at least %s characters)" % (where, E.lb(s, i.cl)), und)
    if hi is not None:
        rep.check(name + "|at most", E.known_le(s, i.cl, lin(hi)), "%s: the code may be longer than allowed (proved at most %s characters)" % (where, E.ub(s, i.cl)), und)
    if alphabet is not None:
        bad = i.cs & ~E.A.of(alphabet)
        rep.check(name + "|alphabet", bad == 0, "%s: the code may contain %s" % (where, E.A.show(bad, 12)), und)
    if never is not None:
        bad = i.cs & never
        rep.check(name + "|excluded characters", bad == 0, "%s: the code may contain %s" % (where, E.A.show(bad, 12)), und)
    if first is not None:
        fb = E.cset(s, i.pre[0]) if i.pre else i.cs
        bad = fb & ~E.A.of(first)
        rep.check(name + "|first character", bad == 0, "%s: the code may start with %s" % (where, E.A.show(bad, 12)), und)
    if rest is not None:
        for j, c in enumerate(i.pre[1:]):
            bad = E.cset(s, c) & ~E.A.of(rest)
            rep.check(name + "|following characters", bad == 0, "%s: character %d of the code may be %s" % (where, j + 2, E.A.show(bad, 12)), und)
        if not i.ex:
            bad = i.cs & ~E.A.of(rest) & ~E.A.of(first or "")
            rep.check(name + "|following characters", bad == 0, "%s: the code may contain %s" % (where, E.A.show(bad, 12)), und)


LOW = "abcdefghijklmnopqrstuvwxyz"
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"


def soundex(P, rep):
    rep.rule = RULE
    cs = [c for c in const_mappings(P, "soundex::")]
    if not cs:
        raise Anchor("no Soundex mapping constants")
    f = P.root("Encoder::encode", "soundex::Soundex")
    for c in cs:
        for flag in (False, True):
            E = P.engine()

            def mk(P, E):
                st = State()
                ty = next(i for i, t in enumerate(P.T) if t["k"] == "array" and t.get("len") == 26 and P.T[t["elem"]]["k"] == "char")
                return [(st, [E.constval(st, c["v"], ty), ("b", flag)], ())]

            insts = by_ctor("soundex::Soundex::new", mk)(P, E)
            nm = "Soundex %s %s" % (c["path"].split("::")[-1], flag)
            analyse(P, rep, nm, f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, nm, f, 4, 4, UP + "0123456", UP, True, "0123456"))
    E = P.engine()
    insts = by_ctor("<soundex::Soundex as std::default::Default>::default", lambda P, E: [(State(), [], ())])(P, E)
    analyse(P, rep, "Soundex default", f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, "Soundex default", f, 4, 4, UP + "0123456", UP, True, "0123456"))


def refined(P, rep):
    rep.rule = RULE
    f = P.root("Encoder::encode", "refined_soundex::RefinedSoundex")
    E = P.engine()
    insts = by_ctor("<refined_soundex::RefinedSoundex as std::default::Default>::default", lambda P, E: [(State(), [], ())])(P, E)
    analyse(P, rep, "RefinedSoundex default", f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, "RefinedSoundex default", f, 2, None, UP + DIG, UP, True, DIG))


def unit_encoder(P, rep, ty, name, lo, hi, alphabet, allow_empty, never=lambda A: None):
    f = P.root("Encoder::encode", ty)
    E = P.engine()
    st = State()
    insts = [(st, ("agg", ()), (), ("tmp", "i"))]
    st.mem[("tmp", "i")] = ("agg", ())
    analyse(P, rep, name, f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, name, f, lo, hi, alphabet, None, allow_empty, never=never(E.A)))


def caverphone(P, rep):
    rep.rule = RULE
    al = "1AFKLMNPRSTWY"
    unit_encoder(P, rep, "caverphone::Caverphone1", "Caverphone1", 6, 6, al, False)
    unit_encoder(P, rep, "caverphone::Caverphone2", "Caverphone2", 10, 10, al, False)


def cologne(P, rep):
    rep.rule = RULE
    unit_encoder(P, rep, "cologne::Cologne", "Cologne", 0, None, "012345678", True)


def mra(P, rep):
    rep.rule = RULE
    unit_encoder(P, rep, "match_rating_approach::MatchRatingApproach", "MRA", 0, 6, None, True, lambda A: A.of(LOW + "&',-.") | A.cls["whitespace"])


def nysiis(P, rep):
    rep.rule = RULE
    f = P.root("Encoder::encode", "nysiis::Nysiis")
    for strict in (True, False):
        E = P.engine()
        insts = by_ctor("nysiis::Nysiis::new", lambda P, E: [(State(), [("b", strict)], ())])(P, E)
        nm = "NYSIIS strict" if strict else "NYSIIS"
        analyse(P, rep, nm, f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, nm, f, 0, 6 if strict else None, None, None, True, never=(E.A.ASCII & ~E.A.UPPER) | E.A.cls["whitespace"]))
    E = P.engine()
    insts = by_ctor("<nysiis::Nysiis as std::default::Default>::default", lambda P, E: [(State(), [], ())])(P, E)
    analyse(P, rep, "NYSIIS default", f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, "NYSIIS default", f, 0, 6, None, None, True))


def newmax(lo=1, hi=(1 << 32) - 1):
    def mk(P, E):
        st = State()
        n = E.newint(st, lo, hi)
        return [(st, [n], (n,))]

    return mk


def optmax(lo=1, hi=(1 << 32) - 1):
    def mk(P, E):
        st = State()
        n = E.newint(st, lo, hi)
        return [(st, [SOME(n)], (n,))]

    return mk


def phonex(P, rep):
    rep.rule = RULE
    f = P.root("Encoder::encode", "phonex::Phonex")
    E = P.engine()
    insts = by_ctor("phonex::Phonex::new", newmax(1))(P, E)
    analyse(P, rep, "Phonex", f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, "Phonex", f, info[0], info[0], None, None, False))
    E = P.engine()
    insts = by_ctor("<phonex::Phonex as std::default::Default>::default", lambda P, E: [(State(), [], ())])(P, E)
    analyse(P, rep, "Phonex default", f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, "Phonex default", f, 4, 4, None, None, False))


META = "0ABEFHIJKLMNOPRSTUWXY"
DMETA = "0AFHJKLMNPRSTX"


def two_chars(E, st, args):
    v = unref(E, st, args[1])
    return E.le(st, I(2), E.S(st, v).cl)


def metaphone(P, rep):
    rep.rule = RULE
    f = P.root("Encoder::encode", "metaphone::Metaphone")
    none = lambda P, E: [(State(), [NONE], ())]
    for nm, mk, lim in (("Metaphone with a limit", optmax(1), True), ("Metaphone without limit", none, False)):
        E = P.engine()
        insts = by_ctor("metaphone::Metaphone::new", mk)(P, E)
        if lim:
            analyse(P, rep, nm, f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, nm, f, 0, info[0], None, None, True))
        E = P.engine()
        insts = by_ctor("metaphone::Metaphone::new", mk)(P, E)
        nm += ", words of two or more characters"
        analyse(P, rep, nm, f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, nm, f, 0, info[0] if lim else None, META, None, True), pre=two_chars)
    E = P.engine()
    insts = by_ctor("<metaphone::Metaphone as std::default::Default>::default", lambda P, E: [(State(), [], ())])(P, E)
    analyse(P, rep, "Metaphone default", f, E, insts, lambda E, s, v, info, a: judge_str(P, rep, E, s, v, "Metaphone default", f, 0, 4, None, None, True))


def dm_job(job):
    P, nm, path, mk, lim = dm_job.P, *job
    rep = Collect()
    E = P.engine()
    f = P.root("Encoder::encode", "double_metaphone::DoubleMetaphone") if path == "encode" else P.root("double_metaphone::DoubleMetaphone::" + path)
    none = lambda P, E: [(State(), [NONE], ())]
    if mk == "default":
        insts = by_ctor("<double_metaphone::DoubleMetaphone as std::default::Default>::default", lambda P, E: [(State(), [], ())])(P, E)
    else:
        insts = by_ctor("double_metaphone::DoubleMetaphone::new", optmax(0) if mk == "some" else none)(P, E)

    def judge(E, s, v, info, a):
        hi = info[0] if lim == "max" else lim
        judge_str(P, rep, E, s, v, nm, f, 0, hi, DMETA + (" " if path != "encode" else ""), None, True)

    analyse(P, rep, nm, f, E, insts, judge)
    return rep


class Collect:
    """records report calls in a worker for replay in the parent"""

    def __init__(self):
        self.calls = []
        self.analysed = set()
        self.notes = {}

    def check(self, *a):
        self.calls.append(("check", a))

    def ok(self, *a):
        self.calls.append(("ok", a))

    def fail(self, *a):
        self.calls.append(("fail", a))

    def undec(self, *a):
        self.calls.append(("undec", a))

    def replay(self, rep):
        for m, a in self.calls:
            getattr(rep, m)(*a)
        rep.analysed.update(self.analysed)
        rep.notes.update(self.notes)


def double_metaphone(P, rep):
    from multiprocessing import Pool

    rep.rule = RULE
    P.atoms()
    dm_job.P = P
    jobs = []
    for path in ("encode", "encode_alternate"):
        jobs += [("%s with a limit" % path, path, "some", "max"), ("%s without limit" % path, path, "none", None), ("%s default" % path, path, "default", 4)]
    with Pool(len(jobs)) as pool:
        for r in pool.imap_unordered(dm_job, jobs, chunksize=1):
            r.replay(rep)


def meta_all(P, rep):
    metaphone(P, rep)
    double_metaphone(P, rep)


def dm(P, rep):
    import inv

    rep.rule = RULE + " Field invariants of the rule type are inferred from its construction sites."
    iv, fns = inv.invariants(P, "daitch_mokotoff::DaitchMokotoffSoundex")
    rep.analysed.update(fns)
    for nm, f, k in (("encode", P.root("Encoder::encode", "daitch_mokotoff::DaitchMokotoffSoundex"), "one"), ("inner_soundex", P.root("daitch_mokotoff::DaitchMokotoffSoundex::inner_soundex"), "list")):
        E = P.engine(inv=iv)

        def judge(E, s, v, info, a):
            v = unref(E, s, v)
            und = "imp" in s.flags
            if k == "one":
                judge_str(P, rep, E, s, v, nm, f, 6, 6)
                return
            if v[0] != "seq":
                rep.undec(nm + "|list", "not a list value")
                return
            rep.check(nm + "|not empty", E.known_le(s, I(1), v[1]), "%s:%s: the list of codes may be empty" % (f["file"], f["line"]), und)
            for x in v[2] if v[2] is not None else [E.instantiate(s, v[3])] if v[3] is not None else []:
                judge_str(P, rep, E, s, x, nm + " element", f, 6, 6)

        st = State()
        st.mem[("tmp", "i")] = ("agg", ())
        selfv = E.deep_expand(st, ("top", P.adt("daitch_mokotoff::DaitchMokotoffSoundex")))
        analyse(P, rep, nm, f, E, [(st, selfv, (), ("tmp", "i"))], judge)


def charseq(P, rep):
    """slicing by character ranges returns normally and gives exactly the characters of the range"""
    from props import total

    total.total(P, rep, types=["helper::CharSequence"], must=["Index<std::ops::Range<usize>>"])
    rep.rule += " Then, for every range type, the number of characters of the returned text is compared with the number of positions of the range that lie inside the text, on every abstract return state."
    rs = P.roots(lambda r: r["path"].startswith("<helper::CharSequence<") and "as std::ops::Index<" in r["path"] and r["path"].endswith(">::index"))
    if not rs:
        raise Anchor("indexing of CharSequence")
    frm = None
    for g in P.D["fns"]:
        if g["local"] and g["path"] == "<helper::CharSequence<'a> as std::convert::From<&'a str>>::from" and "blocks" in g:
            frm = g
    if frm is None:
        raise Anchor("CharSequence from a string")
    for r in rs:
        f = P.F[r["inst"]]
        rt = P.T[f["locals"][2]]
        kind = rt.get("path", "?").split("::")[-1]
        name = "index by %s" % kind
        where = "%s:%s" % (f["file"], f["line"])
        # the positions lo, hi and the length n of the text, split so that every case has one answer
        one, two = I(1), I(2)
        starts = [("at the start", lambda lo, hi, n: [(lo, I(0), 0)]), ("after the start", lambda lo, hi, n: [(one, lo, 0)])]
        sizes = [("one position", lambda lo, hi, n: [(lo, hi, -1), (hi, lo, 1)]), ("several positions", lambda lo, hi, n: [(lo, hi, -2)])]
        ends = [
            ("range inside the text", lambda lo, hi, n: [(hi, n, -1)], lambda E, t, lo, hi, n: E.subi(t, hi, lo)),
            ("range up to the end of the text", lambda lo, hi, n: [(hi, n, 0), (n, hi, 0)], lambda E, t, lo, hi, n: E.subi(t, hi, lo)),
            ("range crossing the end of the text", lambda lo, hi, n: [(lo, n, -1), (n, hi, -1)], lambda E, t, lo, hi, n: E.subi(t, n, lo)),
            ("range after the end of the text", lambda lo, hi, n: [(n, lo, 0)], lambda E, t, lo, hi, n: I(0)),
        ]
        cases = [("empty range", lambda lo, hi, n: [(hi, lo, 0)], lambda E, t, lo, hi, n: I(0))]
        for a_, b_, c_ in itertools.product(starts, sizes, ends):
            cases.append((c_[0], lambda lo, hi, n, x=a_[1], y=b_[1], z=c_[1]: x(lo, hi, n) + y(lo, hi, n) + z(lo, hi, n), c_[2]))
        for cn, conds, want in cases:
            E = P.engine()
            st = State()
            src = E.newstr(st, E.A.ALL)
            key = ("tmp", "src")
            a = E.newint(st, 0, 1 << 58)
            b = E.newint(st, 0, 1 << 58)

            def pos(t):
                src_, x, y = t.mem[key][1]
                n = E.S(t, src_).cl
                lo = I(0) if kind in ("RangeFull", "RangeTo", "RangeToInclusive") else x
                hi = n if kind in ("RangeFull", "RangeFrom") else E.addi(t, y, I(1)) if kind.endswith("Inclusive") else y
                return lo, hi, n

            st.mem[key] = ("agg", (src, a, b))
            if not all(E.le(st, p, q, k) for p, q, k in conds(*pos(st))) or st.z.bot:
                continue
            for s0, cs in E.run_body(frm, st, [("sh", src)]):
                src_, a, b = s0.mem[key][1]
                rv = {"Range": ("agg", (a, b)), "RangeFrom": ("agg", (a,)), "RangeTo": ("agg", (b,)), "RangeToInclusive": ("agg", (b,)), "RangeFull": ("agg", ()), "RangeInclusive": ("agg", (a, b, ("b", False)))}.get(kind)
                if rv is None:
                    rep.undec(name, "range type not known")
                    continue
                for s, v in E.run_body(f, s0, [("sh", cs), rv]):
                    if s.z.bot:
                        continue
                    v = unref(E, s, v)
                    if v[0] != "s":
                        rep.undec(name, "not a string value")
                        continue
                    w = want(E, s, *pos(s))
                    cl = E.S(s, v).cl
                    if E.S(s, v).ex and E.const(s, cl) is None:
                        cl = I(len(E.S(s, v).pre))
                    rep.check(name + "|" + cn, E.known_le(s, w, cl) and E.known_le(s, cl, w), "%s: %s: wrong number of characters" % (where, cn), "imp" in s.flags)
    rep.analysed.update(P.F[i]["path"] for E in P.engines for i in E.analysed if i in P.F and P.F[i]["local"])
