"""C26, C27, C28, C29, C30, C32: what a function returns, by value numbering (gvn.py)."""
import re

import an
from gvn import *

NOTE = "The evaluator inlines calls down to the functions named as uninterpreted; a loop forgets what it may assign, and code without a model gives an unknown value, which is reported as undecided."


def ins(P, f):
    names = {}
    return [("in", n) for n in ["self", "a", "b", "c", "d"][: f["argc"]]]


class Check:
    def __init__(self, P, rep, opaque):
        self.P, self.rep = P, rep
        self.G = Gvn(P, opaque)

    def run(self, f, args, start=None):
        g = self.G
        g.steps, g.lost, g.unknown = 0, False, set()
        st = start.copy() if start else St()
        args = list(args)
        for i, a in enumerate(args):
            if self.P.T[f["locals"][i + 1]]["k"] == "ref" and self.P.T[f["locals"][i + 1]]["mut"]:
                raise an.Anchor("a function taking no mutable reference: " + f["path"])
        r = [(s, s.norm(g.load(s, v))) for s, v in g.body(f, st, args) if not s.bad]
        self.rep.analysed.update(self.P.F[i]["path"] for i in g.analysed if self.P.F[i]["local"])
        return r

    def agree(self, key, f, cases, args=None, start=None):
        """every way through f returns the expected term.
        cases: [(label, [(boolean term, value)], expected)]; expected None: no claim"""
        rep = self.rep
        where = "%s:%s" % (f["file"], f["line"])
        for lab, *_ in cases:
            rep.obl.setdefault("%s|%s" % (key, lab), True)
        try:
            rs = self.run(f, args if args is not None else ins(self.P, f), start)
        except TooMany:
            for lab, *_ in cases:
                rep.undec("%s|%s" % (key, lab), "too many paths")
            return
        lost = self.G.lost
        for lab, asm, *exp in cases:
            pick, exp = exp if len(exp) == 2 else (lambda v, s: v, exp[0])
            k = "%s|%s" % (key, lab)
            n = 0
            for st, v in rs:
                s = st.copy()
                if not all(s.assume(t, b) for t, b in asm) or s.bad:
                    continue
                v1 = pick(v, s)
                if v1 is None:
                    continue
                n += 1
                for res, s2, v2, e2 in self.compare(s, v1, exp):
                    sure = self.G.definite(v2) and not lost and all(self.G.definite(x) for x in s2.facts)
                    rep.check(k, res, "%s: %s returns %s where %s is expected%s" % (where, f["path"], show(v2)[:300], show(e2)[:300], self.facts(s2)), not sure)
                    if not res and not sure:
                        rep.undec(k, "; ".join(sorted(self.G.unknown))[:200] or "unknown value")
            if not n and start is None:
                rep.undec(k, "no way through the function was found")

    def facts(self, s):
        fs = [show(x) for x in s.facts if x not in (TRUE, FALSE)]
        return " (when deciding on %s)" % ", ".join(fs[:4])[:300] if fs else ""

    def compare(self, s, v, exp):
        if callable(exp):
            exp = exp(s, v)
        if exp[0] in ("eq", "not") or exp in (TRUE, FALSE):
            for truth in (True, False):
                s2 = s.copy()
                if not s2.assume(exp, truth) or s2.bad:
                    continue
                w = s2.norm(v)
                yield w == K("b", truth), s2, w, K("b", truth)
        else:
            w, e = s.norm(v), s.norm(exp)
            yield w == e, s, w, e


def encoders(P):
    """{type: (encode, is_encoded_equals)} of every encoder"""
    out = {}
    for r in P.D["roots"]:
        f = P.F[r["inst"]]
        for name in ("encode", "is_encoded_equals"):
            m = re.match(r"^<(.*) as Encoder>::%s$" % name, r["path"])
            s = (r.get("impl_self") or (m.group(1) if m else ""))
            if (r.get("trait_item") == "Encoder::" + name) and s and "dyn " not in s:
                out.setdefault(s, {})[name] = f
    return out


def equality(P, rep):
    rep.rule = "Value numbering of is_encoded_equals for every encoder: on every way through it, the result is true when the codes of the two texts are equal and false when they differ. " + NOTE
    enc = {s: d for s, d in encoders(P).items() if "MatchRating" not in s}
    if len(enc) < 11:
        raise an.Anchor("encoders")

    core = {"double_metaphone::DoubleMetaphone::double_metaphone", "daitch_mokotoff::DaitchMokotoffSoundex::inner_soundex", "beider_morse::engine::PhoneticEngine::<'_>::encode_with_language_set", "beider_morse::lang::Lang::guess_languages"}
    core &= {f["path"] for f in P.D["fns"] if f["local"]}
    inner = tuple(s for s in enc if any(x in s for x in ("double_metaphone", "daitch_mokotoff", "beider_morse")))

    def opaque(path, decl, g):
        if path in core:
            return path
        m = re.match(r"^<(.*) as Encoder>::encode$", path)
        if m and not m.group(1).startswith(("double_metaphone", "daitch_mokotoff", "beider_morse")):
            return "code"

    C = Check(P, rep, opaque)
    self, a, b = ("in", "self"), ("in", "first"), ("in", "second")
    for s, d in sorted(enc.items()):
        f = d.get("is_encoded_equals")
        if f is None or "blocks" not in f or "encode" not in d:
            raise an.Anchor("is_encoded_equals for " + s)
        if s in inner:
            # the two codes first, then the comparison, in the same state
            for st, va in C.G.body(d["encode"], St(), [self, a]):
                va = C.G.load(st, va)
                for st2, vb in C.G.body(d["encode"], st, [self, b]):
                    vb = C.G.load(st2, vb)
                    C.agree(s, f, [("equal codes", [], eq(va, vb))], args=[self, a, b], start=st2)
        else:
            C.agree(s, f, [("equal codes", [], eq(app("code", self, a), app("code", self, b)))], args=[self, a, b])


def double_metaphone(P, rep):
    rep.rule = "Value numbering of the Double Metaphone interface with double_metaphone uninterpreted: each function returns the code the documentation names, of the text it is given. " + NOTE
    dm = "double_metaphone::DoubleMetaphone"
    P.root(dm + "::double_metaphone")

    def opaque(path, decl, g):
        if path == dm + "::double_metaphone":
            return "codes"

    C = Check(P, rep, opaque)
    fs = P.fields("double_metaphone::DoubleMetaphoneResult")
    if not {"primary", "alternate"} <= set(fs):
        raise an.Anchor("the fields of DoubleMetaphoneResult")
    self, a, b, c = [("in", x) for x in ("self", "value1", "value2", "alternate")]

    def code(t, name):
        return ("f", t, None, fs.index(name))

    def codes(v):
        return app("codes", self, v)

    C.agree("encode", P.root("Encoder::encode", dm), [("primary code", [], code(codes(a), "primary"))], args=[self, a])
    C.agree("encode_alternate", P.root(dm + "::encode_alternate"), [("alternate code", [], code(codes(a), "alternate"))], args=[self, a])
    for n in ("primary", "alternate"):
        C.agree("DoubleMetaphoneResult::" + n, P.root("double_metaphone::DoubleMetaphoneResult::" + n), [("its code", [], code(self, n))], args=[self])
    C.agree("is_double_metaphone_equal", P.root(dm + "::is_double_metaphone_equal"), [
        ("compares %s codes" % n, [(c, n == "alternate")], eq(code(codes(a), n), code(codes(b), n))) for n in ("primary", "alternate")
    ], args=[self, a, b, c])


def daitch_mokotoff(P, rep):
    rep.rule = "Value numbering of encode and soundex of Daitch-Mokotoff with inner_soundex uninterpreted: encode returns the first code found without branching (nothing if there is none), soundex all the codes found with branching, separated by '|'. " + NOTE
    d = "daitch_mokotoff::DaitchMokotoffSoundex"
    P.root(d + "::inner_soundex")

    def opaque(path, decl, g):
        if path == d + "::inner_soundex":
            return "codes"

    C = Check(P, rep, opaque)
    self, a = ("in", "self"), ("in", "value")
    one, all_ = app("codes", self, a, FALSE), app("codes", self, a, TRUE)
    # the order of the codes is inner_soundex's
    C.G.softs = re.compile(SOFT.pattern.replace("|vec::sort.*|vec::dedup", ""))
    # without branching there is at most one code to choose from
    C.G.soft = lambda t: t[0] == "app" and t[1].split("::")[-1] in ("last", "pop", "get", "concat", "join") and t[2][0] == one
    opt = app("next", one)
    C.agree("encode", P.root("Encoder::encode", d), [
        ("first code", [(eq(("disc", opt), K("i", 1)), True)], ("f", opt, 1, 0)),
        ("no code", [(eq(("disc", opt), K("i", 0)), True)], EMPTY),
    ], args=[self, a])
    C.agree("soundex", P.root(d + "::soundex"), [("joined codes", [], app("join", all_, K("s", "|")))], args=[self, a])


def beider_morse(P, rep):
    rep.rule = "Value numbering of the Beider-Morse interface with the engine's encoder and the language guess uninterpreted: encode is encode_with_languages for the guessed languages, and encode_with_languages hands both arguments to the engine. " + NOTE
    en = "beider_morse::engine::PhoneticEngine::<'_>"
    core, guess = P.fn(en + "::encode_with_language_set"), P.fn("beider_morse::lang::Lang::guess_languages")

    def opaque(path, decl, g):
        if g is core:
            return "codes"
        if g is guess:
            return "guess"

    C = Check(P, rep, opaque)
    self, a, l = ("in", "self"), ("in", "value"), ("in", "languages")
    bf, ef = P.fields("beider_morse::BeiderMorse"), P.fields("beider_morse::engine::PhoneticEngine")
    eng = ("f", self, None, bf.index("engine"))
    lang = ("f", eng, None, ef.index("lang"))
    C.agree("encode_with_languages", P.fn("beider_morse::BeiderMorse::<'_>::encode_with_languages"), [("engine's codes", [], app("codes", eng, a, l))], args=[self, a, l])
    enc = next((d["encode"] for s, d in encoders(P).items() if "BeiderMorse" in s and "encode" in d), None)
    if enc is None:
        raise an.Anchor("Encoder for BeiderMorse")
    C.agree("encode", enc, [("codes for the guessed languages", [], app("codes", eng, a, app("guess", lang, a)))], args=[self, a])


def adt(P, path, variant, *fields):
    i = P.adt(path)
    t = P.T[i]
    vs = [v["name"] for v in t["variants"]]
    return ("agg", ("adt", i, vs.index(variant) if variant else 0, t["akind"]), tuple(fields))


def fields_of(P, path, need):
    fs = P.fields(path)
    if not set(need) <= set(fs):
        raise LookupError("fields of " + path)
    return fs


def language_sets(P, rep):
    rep.rule = "Value numbering of the LanguageSet operations for each combination of variants: restrict_to and merge return the set the algebra gives (Any neutral and NoLanguages absorbing for one, the reverse for the other, intersection and union of two lists), and is_empty, is_singleton, any and the conversions agree with the list of languages. " + NOTE
    L = "beider_morse::languages::LanguageSet"
    C = Check(P, rep, lambda path, decl, g: None)
    n1, n2 = ("in", "languages1"), ("in", "languages2")
    any_, none = adt(P, L, "Any"), adt(P, L, "NoLanguages")

    def some(t):
        return adt(P, L, "SomeLanguages", t)

    def empty_or(t):
        # an empty list and no languages are the same set
        return lambda s, v: none if v == none and s.norm(eq(app("len", t), ZERO)) == TRUE else some(t)

    both = app("intersection", n1, n2)
    either = app("union", n1, n2)
    A, N, S1, S2 = ("Any", any_), ("NoLanguages", none), ("SomeLanguages", some(n1)), ("SomeLanguages", some(n2))
    table = [
        (A, A, any_, any_), (A, N, none, any_), (A, S2, some(n2), any_),
        (N, A, none, any_), (N, N, none, none), (N, S2, none, some(n2)),
        (S1, A, some(n1), any_), (S1, N, none, some(n1)), (S1, S2, empty_or(both), empty_or(either)),
    ]
    f, g = P.root(L + "::restrict_to"), P.root(L + "::merge")
    for (x, a), (y, b), r, m in table:
        C.agree("restrict_to", f, [("%s, %s" % (x, y), [], r)], args=[a, b])
        C.agree("merge", g, [("%s, %s" % (x, y), [], m)], args=[a, b])
    ln = app("len", n1)
    C.agree("is_empty", P.root(L + "::is_empty"), [("Any", [], FALSE)], args=[any_])
    C.agree("is_empty", P.root(L + "::is_empty"), [("NoLanguages", [], TRUE)], args=[none])
    C.agree("is_empty", P.root(L + "::is_empty"), [("SomeLanguages", [], eq(ln, ZERO))], args=[some(n1)])
    C.agree("is_singleton", P.root(L + "::is_singleton"), [("Any", [], FALSE)], args=[any_])
    C.agree("is_singleton", P.root(L + "::is_singleton"), [("NoLanguages", [], FALSE)], args=[none])
    C.agree("is_singleton", P.root(L + "::is_singleton"), [("SomeLanguages", [], eq(ln, K("i", 1)))], args=[some(n1)])
    f = P.root(L + "::any")
    opt = f["locals"][0]
    absent = ("agg", ("adt", opt, 0, "Enum"), ())
    C.agree("any", f, [("Any", [], absent)], args=[any_])
    C.agree("any", f, [("NoLanguages", [], absent)], args=[none])
    nx = app("next", n1)
    C.agree("any", f, [("SomeLanguages, a language", [(eq(("disc", nx), K("i", 1)), True)], ("agg", ("adt", opt, 1, "Enum"), (("f", nx, 1, 0),))), ("SomeLanguages, none", [(eq(("disc", nx), K("i", 0)), True)], absent)], args=[some(n1)])
    for r in P.roots(lambda r: r["path"].startswith("<%s as std::convert::From<" % L)):
        f = P.F[r["inst"]]
        if "BTreeSet" in r["path"]:
            C.agree("From<BTreeSet>", f, [("no language", [(eq(ln, ZERO), True)], lambda s, v: v if v == some(n1) else none), ("languages", [(eq(ln, ZERO), False)], some(n1))], args=[n1])
        elif "Vec<" in r["path"]:
            C.agree("From<Vec>", f, [("languages", [], lambda s, v: v if v == none and s.norm(eq(ln, ZERO)) == TRUE else some(n1))], args=[n1])


def options(P, rep):
    rep.rule = "Value numbering of the constructors and builder methods: each stores its argument unchanged in its own field, leaves the other fields as they are, and build passes every option on to the encoder. " + NOTE
    C = Check(P, rep, lambda path, decl, g: None)
    a, b, self = ("in", "argument 1"), ("in", "argument 2"), ("in", "self")
    for p, names in (
        ("soundex::Soundex", ("mapping", "special_case_h_w")), ("refined_soundex::RefinedSoundex", ("mapping",)), ("metaphone::Metaphone", ("max_code_length",)),
        ("double_metaphone::DoubleMetaphone", ("max_code_length",)), ("phonex::Phonex", ("max_code_length",)), ("nysiis::Nysiis", ("strict",)),
    ):
        fs = fields_of(P, p, names)
        C.agree(p + "::new", P.root(p + "::new"), [("arguments stored", [], adt(P, p, None, *[dict(zip(names, (a, b)))[n] if n in names else ("unk", 0) for n in fs]))], args=[a, b][: len(names)])
    # Beider-Morse
    B = "beider_morse::BeiderMorseBuilder"
    fs = P.fields(B)
    opts = ("name_type", "rule_type", "concat", "max_phonemes")
    fields_of(P, B, opts + ("config_files",))
    old = {n: ("f", self, None, i) for i, n in enumerate(fs)}
    for n in opts:
        C.agree(B + "::" + n, P.root(B + "::<'a>::" + n), [("stored, others kept", [], adt(P, B, None, *[a if m == n else old[m] for m in fs]))], args=[self, a])
    f = P.root(B + "::<'a>::new")
    C.agree(B + "::new", f, [("configuration stored", [], part(fs.index("config_files")), a)], args=[a])
    BM, EN = "beider_morse::BeiderMorse", "beider_morse::engine::PhoneticEngine"
    es, cs = fields_of(P, EN, opts + ("rules", "lang")), fields_of(P, "beider_morse::ConfigFiles", ("rules",))
    f = P.root(B + "::<'a>::build")
    rules = ("f", old["config_files"], None, cs.index("rules"))
    for n in ("name_type", "concat", "max_phonemes"):
        C.agree(B + "::build", f, [(n + " passed on", [], part(es.index(n)), old[n])], args=[self])
    C.agree(B + "::build", f, [("rules passed on", [], part(es.index("rules")), rules)], args=[self])
    nt = old["name_type"]

    def table(s, v):
        if v[0] == "f" and v[2:] == (1, 0) and v[1][0] == "app" and v[1][1] == "get" and v[1][2][1] == nt:
            return v
        return ("f", app("get", ("in", "the configuration's languages"), nt), 1, 0)

    C.agree(B + "::build", f, [("languages of the name type used", [], part(es.index("lang")), table)], args=[self])
    rt, pt = P.adt("beider_morse::rule::RuleType"), P.adt("beider_morse::rule::PrivateRuleType")
    names = [v["name"] for v in P.T[pt]["variants"]]
    for i, v in enumerate(P.T[rt]["variants"]):
        if v["name"] not in names:
            raise LookupError("rule types")
        exp = ("agg", ("adt", pt, names.index(v["name"]), "Enum"), ())
        me = adt(P, B, None, *[("agg", ("adt", rt, i, "Enum"), ()) if m == "rule_type" else old[m] for m in fs])
        C.agree(B + "::build", f, [("rule type %s passed on" % v["name"], [], part(es.index("rule_type")), exp)], args=[me])
    # Daitch-Mokotoff
    B = "daitch_mokotoff::DaitchMokotoffSoundexBuilder"
    fs = fields_of(P, B, ("rules", "ascii_folding"))
    old = {n: ("f", self, None, i) for i, n in enumerate(fs)}
    C.agree(B + "::ascii_folding", P.root(B + "::<'a>::ascii_folding"), [("stored, others kept", [], adt(P, B, None, *[a if m == "ascii_folding" else old[m] for m in fs]))], args=[self, a])
    C.agree(B + "::with_rules", P.root(B + "::<'a>::with_rules"), [("rules stored", [], part(fs.index("rules")), a)], args=[a])
    ds = fields_of(P, "daitch_mokotoff::DaitchMokotoffSoundex", ("ascii_folding",))
    D = Check(P, rep, lambda path, decl, g: "!" if g is not None and g["local"] and not path.startswith(B) else None)
    f = P.root(B + "::<'a>::build")
    D.agree(B + "::build", f, [("ascii_folding passed on", [], part(ds.index("ascii_folding")), old["ascii_folding"])], args=[self])


def part(i):
    """the i-th field of the value, inside newtypes and a success; None: no claim (a failure)"""
    def pick(v, s):
        while v[0] == "agg" and len(v[2]) == 1 and v[1][0] == "adt":
            if v[1][3] == "Enum" and v[1][2] != 0:
                return None
            v = v[2][0]
        if s.norm(("disc", v)) == K("i", 1):
            return None
        return v[2][i] if v[0] == "agg" and i < len(v[2]) else ("f", v, None, i)
    return pick


US = {"soundex::Soundex": "01230120022455012623010202", "refined_soundex::RefinedSoundex": "01360240043788015936020505"}


def mappings(P, rep):
    rep.rule = (
        "Value numbering of the ways to build a Soundex and a Refined Soundex: from a text, the mapping is the sequence of its characters converted to an array of 26, and the answer is an error exactly when that conversion fails; "
        "from an array, the array; by default, the American English mapping; the special case of H and W is off exactly when the mapping contains the silent mark. " + NOTE
    )
    C = Check(P, rep, lambda path, decl, g: None)
    C.G.lenient = False
    a = ("in", "mapping")
    for s, default in US.items():
        fs = fields_of(P, s, ("mapping",))
        hw = "special_case_h_w" in fs

        def built(m):
            d = {"mapping": m, "special_case_h_w": neg(app("contains", m, K("c", 45)))}
            return adt(P, s, None, *[d[n] for n in fs])

        found = 0
        for f in P.D["fns"]:
            m = re.match(r"^<%s as std::(\w+::\w+)(?:<(.*)>)?>::(from|try_from|from_str|default)$" % s, f["path"])
            if not f["local"] or "blocks" not in f or not m:
                continue
            name = f["path"]
            if m.group(3) == "default":
                arr = app("array", *[K("c", ord(c)) for c in default])
                d = {"mapping": arr, "special_case_h_w": TRUE}
                C.agree(name, f, [("the American English mapping", [], adt(P, s, None, *[d[n] for n in fs]))], args=[])
                found += 1
            elif m.group(3) == "from" and m.group(2) == "[char; 26]":
                C.agree(name, f, [("the mapping given", [], built(a))], args=[a])
                found += 1
            elif m.group(3) in ("try_from", "from_str"):
                found += 1
                x = app("array_of", app("collect:std::vec::Vec<char>", a))
                size = eq(app("len", a), K("i", 26))
                C.agree(name, f, [
                    ("26 characters: the mapping they are", [(eq(("disc", x), K("i", 0)), True), (size, True)], ("agg", ("adt", f["locals"][0], 0, "Enum"), (built(("f", x, 0, 0)),))),
                    ("any other number: an error", [(eq(("disc", x), K("i", 1)), True), (size, False)], lambda v, s: ("disc", v), K("i", 1)),
                ], args=[a])
        if found < 4:
            raise an.Anchor("constructors of " + s)
