"""Information flow: letter case of the input never reaches the result."""
import os, re, signal, traceback
from multiprocessing import Pool

import an
from engine.core import LOOSE, RAW
from props import total as T

RULE = (
    "Dependence analysis on top of the abstract interpretation: the input text is tagged, the tag is dropped by case conversion only and follows every copy; "
    "a test of a tagged character against a set that tells an ASCII letter from its other case, a comparison or lookup of tagged text, "
    "a number made from a tagged character, and a tagged result are the violations."
)
# operations on text whose outcome is the same for both cases of a letter, or that are followed character by character
BLIND = (
    "len", "is_empty", "chars", "char_indices", "to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "make_ascii_uppercase", "make_ascii_lowercase",
    "eq_ignore_ascii_case", "is_alphabetic", "is_ascii_alphabetic", "is_whitespace", "is_ascii_whitespace", "is_alphanumeric", "is_ascii", "is_ascii_digit", "is_numeric", "len_utf8",
    "deref", "as_str", "as_ref", "borrow", "to_string", "to_owned", "clone", "from", "into", "into_iter", "iter", "cloned", "copied", "next", "next_back", "nth", "peek", "peekable", "rev", "skip", "take", "last",
    "filter", "map", "filter_map", "flat_map", "flatten", "collect", "extend", "from_iter", "enumerate", "count", "fold", "for_each", "any", "all", "find", "position", "skip_while", "take_while", "step_by", "zip", "chain",
    "push", "push_str", "insert", "insert_str", "truncate", "pop", "remove", "with_capacity", "capacity", "trim", "trim_start", "trim_end", "index", "get", "replace", "replacen", "replace_range", "retain",
    "starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix", "split", "split_whitespace", "matches", "trim_matches", "trim_start_matches", "trim_end_matches", "is_char_boundary",
    "unwrap", "unwrap_or", "unwrap_or_default", "expect", "is_some", "is_none", "ok_or", "first", "swap", "join", "concat", "append", "drop", "call", "call_mut", "call_once", "nfd", "nfc", "nfkd", "eq", "ne", "size_hint", "is_some_and", "map_or", "unwrap_or_else", "or_else", "and_then", "as_deref", "deref_mut", "as_mut", "take_if", "box_new", "new",
)


def closed_under_case(E, cs, bits):
    A = E.A
    for i in range(26):
        u, l = A.c(65 + i), A.c(97 + i)
        if (cs & u or cs & l) and bool(bits & u) != bool(bits & l):
            return False
    return True


def tags(E, st, v, depth=0, seen=None):
    """does a value carry tagged text"""
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or not v or depth > 12:
        return False
    k = v[0]
    if k == "c":
        return bool(E.ctag(st, v)) and not closed_under_case(E, 0, 0) or bool(E.ctag(st, v) and E.cset(st, v) & E.A.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
    if k == "s":
        i = st.st[v[1]]
        if i.tag & RAW and i.cs & E.A.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"):
            return True
        return any(tags(E, st, c, depth + 1, seen) for c in tuple(i.pre) + tuple(i.suf))
    if k == "S":
        return bool(v[7] & RAW and v[1] & E.A.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
    if k == "mu":
        for r, p in v[1]:
            if (r, p) not in seen:
                seen.add((r, p))
                if tags(E, st, E.read(st, r, p), depth + 1, seen):
                    return True
        return False
    if k in ("sh", "agg", "en", "seq", "clo", "obj", "tm"):
        return any(walk(E, st, x, depth + 1, seen) for x in v[1:])
    return False


def walk(E, st, x, depth, seen):
    if isinstance(x, tuple) and x:
        if isinstance(x[0], str):
            return tags(E, st, x, depth, seen)
        return any(walk(E, st, y, depth, seen) for y in x)
    return False


def hooks(E, found, odd):
    def where():
        f, line = E.stack[-1] if E.stack else (None, 0)
        name = f["path"] if f else "?"
        return name, line if isinstance(line, int) else 0

    def report(kind, what, st):
        name, _ = where()
        chain = [g["path"] for g, _ in E.stack]
        site = None
        for g, l in reversed(E.stack):
            if g["local"]:
                site = g, l
                break
        key = (site[0]["path"] if site else name, kind)
        e = found.setdefault(key, dict(what=what, chain=chain, file=site[0]["file"] if site else "?", line=E.site()[1] if hasattr(E, "site") else 0, und=True))
        if "imp" not in st.flags:
            e["und"] = False

    def raw_test(E_, st, cs, bits, what):
        if not closed_under_case(E, cs, bits):
            report("test", "%s against %s" % (what, E.A.show(bits & E.A.ASCII, 8)), st)

    def raw_cmp(E_, st, a, b, what):
        report("comparison", "comparison of input text before case conversion", st)

    def raw_str(E_, st, *a):
        report("comparison", "comparison of input text before case conversion", st)

    def raw_cast(E_, st, v):
        if E.cset(st, v) & E.A.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"):
            report("number", "number made from an input character before case conversion", st)

    def raw_call(E_, st, args, path, opaque, local):
        if not any(tags(E, st, a) for a in args):
            return
        if any(m in path for m in ("BTreeMap", "BTreeSet", "HashMap", "HashSet")) and path.split("::")[-1] in ("get", "get_mut", "contains_key", "contains", "entry", "get_key_value", "index", "remove", "range", "insert", "get_or_insert_with"):
            if any(tags(E, st, a) for a in args[1:]):
                report("lookup", "lookup of an input character before case conversion", st)
        elif opaque:
            report("call", "input text given to %s before case conversion" % path, st)
        elif not local and path.split("::")[-1] not in BLIND and "{closure" not in path:
            odd.add(path)

    E.hooks.update(raw_test=raw_test, raw_cmp=raw_cmp, raw_str=raw_str, raw_cast=raw_cast, raw_call=raw_call)


def mark(E, st, args):
    """tag every text parameter"""
    n = 0
    for a in args:
        v = a
        while v[0] == "sh":
            v = v[1]
        if v[0] == "s":
            st.st[v[1]] = st.st[v[1]]._replace(tag=RAW)
            n += 1
    return n > 0


def _case(job):
    name, inst, secs, opaque = job
    P = _case.P
    f = P.F[inst]
    ops = {g["id"] for g in P.D["fns"] if g["local"] and g["path"] in opaque}
    found, odd, res = {}, set(), {}
    E = P.engine(opaque=ops, root=inst, induct=_case.induct)
    hooks(E, found, odd)
    signal.signal(signal.SIGALRM, T._alarm)
    signal.alarm(secs)
    err = None
    n = 0
    try:
        for st, v, args in an.run(E, f, splits=False, pre=mark):
            n += 1
            if tags(E, st, v):
                res["result"] = "imp" in st.flags and res.get("result", True)
    except T.TimeUp:
        err = "time limit"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "analysis gave up: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    return name, inst, err, n, found, odd, res, dict(E.notes), sorted({P.F[i]["path"] for i in E.analysed if i in P.F and P.F[i]["local"]})


def case(P, rep, secs=400):
    rep.rule = RULE
    P.atoms()
    jobs = []
    for r in P.D["roots"]:
        p, s, ti = r["path"], r.get("impl_self") or "", r.get("trait_item") or ""
        if not r["reach"] or "blocks" not in P.F[r["inst"]]:
            continue
        if ti.endswith("Encoder::encode") or p.endswith((" as Encoder>::encode",)) or p in (
            "double_metaphone::DoubleMetaphone::double_metaphone", "double_metaphone::DoubleMetaphone::encode_alternate",
            "daitch_mokotoff::DaitchMokotoffSoundex::inner_soundex", "daitch_mokotoff::DaitchMokotoffSoundex::soundex",
            "beider_morse::BeiderMorse::<'_>::encode_with_languages",
        ):
            if "dyn " in s:
                continue
            jobs.append((p + (" for " + s if s and " for " not in p and s not in p else ""), r["inst"]))
    jobs = sorted({i: (n, i) for n, i in jobs}.values())
    if len(jobs) < 12:
        raise an.Anchor("encoders")
    rep.extra["roots"] = [n for n, _ in jobs]
    G = T.callees(P, {i for _, i in jobs})
    _case.P, _case.induct = P, T.cyclic(G)
    eng = "beider_morse::engine::PhoneticEngine::<'_>::"
    with Pool(8) as pool:
        todo = [(n, i, secs, frozenset([eng + "apply_final_rule", "beider_morse::engine::PhonemeBuilder::apply", "beider_morse::rule::Rule::pattern_and_context_matches"]) if "Beider" in n else frozenset()) for n, i in jobs]
        for name, inst, err, n, found, odd, res, notes, fns in pool.imap_unordered(_case, todo, chunksize=1):
            rep.analysed.update(fns)
            f = P.F[inst]
            for (fn, kind), a in sorted(found.items()):
                k = "%s|%s|%s" % (name, fn, kind)
                rep.check(k, False, "%s:%s: in %s: %s; reached through %s" % (a["file"], a["line"], fn, a["what"], " -> ".join(a["chain"][:10])), a["und"])
            for p in sorted(odd):
                rep.undec("%s|%s" % (name, p), "input text given to a function whose treatment of case is not modelled")
            if err:
                rep.undec(name, err)
                continue
            if not n:
                rep.undec(name, "no way through the function was found")
            rep.check(name + "|result", not res, "%s:%s: the result of %s may contain input text that was not case-converted" % (f["file"], f["line"], name), res.get("result", False))
            for x in notes:
                rep.undec("%s|%s" % (name, x), "code without an abstract model")


# ------------------------------------------------------------ characters that are dropped
DROP_RULE = (
    "Dependence analysis on top of the abstract interpretation: the input text is tagged as long as characters that must not count may be in it; "
    "the tag follows every copy and conversion and is dropped by a filter that rejects all of these characters. "
    "A look at a tagged text by position, by comparison, search or replacement, and a tagged result are the violations; "
    "a test for an empty text, on which the property claims nothing, is none."
)
LOOKS = (
    "starts_with", "ends_with", "strip_prefix", "strip_suffix", "replace", "replacen", "replace_range", "truncate", "pop", "remove", "contains", "find", "rfind", "matches",
    "split_at", "split_once", "get", "index", "nth", "last", "take", "skip", "step_by", "insert", "insert_str", "rev", "drain", "split_off",
)
HARMLESS = (
    "is_empty", "chars", "to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "make_ascii_uppercase", "make_ascii_lowercase", "deref", "as_str", "as_ref", "borrow", "to_string", "to_owned", "clone",
    "from", "into", "into_iter", "iter", "cloned", "copied", "filter", "retain", "collect", "from_iter", "extend", "map", "flat_map", "flatten", "next", "trim", "trim_start", "trim_end", "nfd", "nfc", "nfkd", "drop", "deref_mut", "call", "call_mut", "call_once",
    "is_alphabetic", "is_ascii_alphabetic", "is_whitespace", "is_ascii_whitespace", "is_alphanumeric", "is_ascii", "is_ascii_digit", "is_numeric", "is_ascii_uppercase", "is_ascii_lowercase", "is_uppercase", "is_lowercase", "is_ascii_punctuation", "is_control", "eq", "ne", "unwrap_or", "with_capacity", "spec_to_string",
)
DROPPED = {
    "soundex::Soundex": "letters", "refined_soundex::RefinedSoundex": "letters", "nysiis::Nysiis": "letters", "phonex::Phonex": "letters", "caverphone::Caverphone1": "letters", "caverphone::Caverphone2": "letters",
    "daitch_mokotoff::DaitchMokotoffSoundex": "blanks",
}


def loose_tags(E, st, v, depth=0, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or not v or depth > 12:
        return False
    k = v[0]
    if k == "c":
        return bool(E.ctag(st, v) & LOOSE)
    if k == "s":
        i = st.st[v[1]]
        return bool(i.tag & LOOSE and i.cs & E.loose) or any(E.ctag(st, c) & LOOSE for c in tuple(i.pre) + tuple(i.suf) if c)
    if k == "S":
        return bool(v[7] & LOOSE and v[1] & E.loose)
    if k == "C":
        return bool(v[2] & LOOSE and v[1] & E.loose)
    if k == "mu":
        for r, p in v[1]:
            if (r, p) not in seen:
                seen.add((r, p))
                if loose_tags(E, st, E.read(st, r, p), depth + 1, seen):
                    return True
        return False
    if not isinstance(k, str):
        return any(loose_tags(E, st, x, depth + 1, seen) for x in v)
    return any(loose_tags(E, st, x, depth + 1, seen) for x in v[1:] if isinstance(x, tuple))


def chooses(a):
    """a closure"""
    while a[0] in ("sh",):
        a = a[1]
    return a[0] in ("clo", "fn", "fp")


def erases(E, st, a):
    while a[0] == "sh":
        a = a[1]
    return a[0] == "s" and st.st[a[1]].k == ""


def measured(E):
    """the number returned by the call under way is compared with something other than nothing"""
    f, line = E.stack[-1]
    now = [b for b in f["blocks"] if b["t"][0] == "call" and b["t"][1].get("decl", "").split("::")[-1] in ("len", "count") and b["t"][5] == line and isinstance(b["t"][3], int)]
    if not now:
        return False
    for b in now:
        held = {b["t"][3]}
        def is_held(o):
            return isinstance(o, dict) and isinstance(o.get("cp", o.get("mv")), int) and o.get("cp", o.get("mv")) in held

        def nothing(o, op):
            return isinstance(o, dict) and "k" in o and o["k"] == {"i": 0} or isinstance(o, dict) and o.get("k") == {"i": 1} and op in ("Lt", "Ge")

        for _ in range(4):
            for c in f["blocks"]:
                for s in c["s"]:
                    if s[0] == "=" and s[2][0] == "use" and isinstance(s[1], int) and is_held(s[2][1]):
                        held.add(s[1])

        hit = False
        for c in f["blocks"]:
            for s in c["s"]:
                if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    x, y = s[2][2], s[2][3]
                    hit |= is_held(x) and not nothing(y, s[2][1]) or is_held(y) and not nothing(x, "")
            if c["t"][0] == "switch" and is_held(c["t"][1]) and any(v != 0 for v, _ in c["t"][2]):
                hit = True
        if not hit:
            return False
    return True


def _drop(job):
    name, inst, what, secs = job
    P = _drop.P
    f = P.F[inst]
    found, odd, res = {}, set(), {}
    E = P.engine(root=inst, induct=_drop.induct)
    A = E.A
    if what == "letters":
        E.loose = A.ASCII & ~A.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    else:
        E.loose = A.of(" \t\n\r\x0c")

    def site():
        for g, l in reversed(E.stack):
            if g["local"]:
                return g
        return f

    def report(kind, text, st):
        g = site()
        e = found.setdefault((g["path"], kind), dict(what=text, chain=[h["path"] for h, _ in E.stack], file=g["file"], line=E.site()[1], und=True))
        if "imp" not in st.flags:
            e["und"] = False

    def predicate():
        """inside a closure that answers yes or no: whatever consults it decides"""
        for g, _ in reversed(E.stack):
            if "{closure" in g["path"]:
                return P.T[g["locals"][0]]["s"] == "bool"
            if g["local"]:
                return P.T[g["locals"][0]]["s"] == "bool" and len(g["locals"]) > 1 and P.T[g["locals"][1]]["s"].lstrip("&") == "char"
        return False

    def strange(st, what):
        """not followed: what is found after it proves nothing"""
        odd.add(what)
        st.flags = tuple(sorted(set(st.flags) | {"imp"}))

    def test(E_, st, *a):
        if not predicate():
            strange(st, "a test of one character in " + site()["path"])

    def call(E_, st, args, path, opaque, local):
        if local or "{closure" in path or E.stack and not E.stack[-1][0]["local"] or not any(loose_tags(E, st, a) for a in args):
            return
        last = path.split("::")[-1]
        if last in LOOKS:
            if last in ("contains", "get", "index", "insert", "remove") and not any(loose_tags(E, st, a) for a in args[:1]):
                return  # a character looked up somewhere else
            if any(chooses(a) for a in args[1:]) or last.startswith("replace") and len(args) > 2 and erases(E, st, args[2]):
                strange(st, path)  # may be the very removal
                return
            report(last, "%s on input text that may still hold %s" % (path, A.show(E.loose, 8)), st)
        elif last in ("len", "count") and measured(E):
            report(last, "a comparison of the size of input text that may still hold %s" % A.show(E.loose, 8), st)
        elif last not in HARMLESS and last != "len":
            if last in ("char_indices", "enumerate", "peekable", "peek", "count"):
                odd.add(path)  # removes nothing
            else:
                strange(st, path)

    E.hooks.update(raw_test=test, raw_cmp=test, raw_call=call, raw_str=lambda *a: None, raw_cast=lambda E_, st, v: strange(st, "a number made of an input character in " + site()["path"]))

    def tag(E, st, args):
        for a in args:
            while a[0] == "sh":
                a = a[1]
            if a[0] == "s":
                st.st[a[1]] = st.st[a[1]]._replace(tag=LOOSE)
        return True

    signal.signal(signal.SIGALRM, T._alarm)
    signal.alarm(secs)
    err, n = None, 0
    try:
        for st, v, args in an.run(E, f, splits=False, pre=tag):
            n += 1
            if loose_tags(E, st, v):
                res["result"] = "imp" in st.flags and res.get("result", True)
    except T.TimeUp:
        err = "time limit"
    except Exception as e:
        if os.environ.get("RPHON_DEBUG"):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "analysis gave up: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    return name, inst, err, n, found, odd, res, dict(E.notes), sorted({P.F[i]["path"] for i in E.analysed if i in P.F and P.F[i]["local"]})


def dropped(P, rep, secs=300):
    rep.rule = DROP_RULE
    P.atoms()
    jobs = []
    for r in P.D["roots"]:
        p = r["path"]
        for ty, what in DROPPED.items():
            if p == "<%s as Encoder>::encode" % ty or p.endswith(ty + "::inner_soundex"):
                jobs.append((p, r["inst"], what, secs))
    if len(jobs) < len(DROPPED) + 1:
        raise an.Anchor("encoders")
    rep.extra["roots"] = [j[0] for j in jobs]
    _drop.P, _drop.induct = P, T.cyclic(T.callees(P, {j[1] for j in jobs}))
    with Pool(8) as pool:
        for name, inst, err, n, found, odd, res, notes, fns in pool.imap_unordered(_drop, jobs, chunksize=1):
            rep.analysed.update(fns)
            f = P.F[inst]
            for (fn, kind), a in sorted(found.items()):
                rep.check("%s|%s|%s" % (name, fn, kind), False, "%s:%s: in %s: %s; reached through %s" % (a["file"], a["line"], fn, a["what"], " -> ".join(a["chain"][:10])), a["und"])
            for p in sorted(odd):
                rep.undec("%s|%s" % (name, p), "input text that may still hold such characters given to something that may look at them")
            if err:
                rep.undec(name, err)
                continue
            if not n:
                rep.undec(name, "no way through the function was found")
            if not found:
                rep.ok(name + "|text")
            rep.check(name + "|result", not res, "%s:%s: the result of %s may hold characters of the input that must not count" % (f["file"], f["line"], name), res.get("result", False))
            for x in notes:
                rep.undec("%s|%s" % (name, x), "code without an abstract model")
