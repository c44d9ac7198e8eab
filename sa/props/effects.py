"""Effects: no hidden state, no ambient input, thread safety, configuration round trip."""
import re

import an
from an import Anchor

TB = [
    "rustc nightly's type checker, trait solver and MIR construction (the analysed program is the MIR of the current source, all features)",
    "safe Rust: a value reached through a shared reference without interior mutability does not change",
    "the standard library, nom, either and regex keep no observable state between calls apart from the listed functions",
]


def mentions(P, f):
    """ids of every function a body calls, refers to or captures"""
    out, types = set(), set()

    def walk(o):
        if isinstance(o, dict):
            if isinstance(o.get("inst"), int):
                out.add(o["inst"])
            if isinstance(o.get("t"), int):
                types.add(o["t"])
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)

    walk(f["blocks"])
    types.update(f["locals"])
    for t in types:
        t = P.T[t]
        if t["k"] == "closure" and t.get("body") is not None:
            out.add(t["body"])
        if t["k"] == "fndef":
            c = t["callee"]
            if isinstance(c, dict) and isinstance(c.get("inst"), int):
                out.add(c["inst"])
    return out


def calls(f):
    """[(callee dict, args, destination, line)] of direct calls"""
    for n, b in enumerate(f["blocks"]):
        t = b["t"]
        if t[0] == "call" and "op" not in t[1]:
            yield t[1], t[2], t[3], t[5], n


def reach(P, start):
    """{function id: id it was first reached from}"""
    seen = {i: None for i in start}
    work = list(start)
    while work:
        i = work.pop()
        f = P.F.get(i)
        if not f or "blocks" not in f:
            continue
        for j in mentions(P, f):
            if j not in seen:
                seen[j] = i
                work.append(j)
    return seen


def chain(P, par, i):
    out = []
    while i is not None:
        if P.F[i]["local"] or not out:
            out.append(P.F[i]["path"])
        i = par[i]
    return " -> ".join(reversed(out[:10]))


AMBIENT = [
    (r"^std::time::|^std::sys::.*time|SystemTime|Instant::(now|elapsed)", "reads the clock"),
    (r"^std::env::", "reads the environment"),
    (r"^std::process::|^<?std::process", "uses the process"),
    (r"^std::net::", "uses the network"),
    (r"^std::thread::(?!local)|^std::thread::LocalKey", "uses threads or thread-local state"),
    (r"RandomState|^rand::|^getrandom|^fastrand|^std::random", "uses a random source"),
    (r"^std::io::(_print|_eprint|stdio|stdin|stdout|stderr|Write::|Read::)|^std::io::stdio", "prints or reads a stream"),
    (r"^std::panic::|^std::backtrace", "uses panic machinery"),
]
FS = r"^<?std::fs::|^std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|try_exists|read_link)$"


def sig_types(P, f):
    return [P.T[t]["s"] for t in f["locals"][1 : f["argc"] + 1]]


def deref_lazy(paths):
    return [c for c in paths if not re.match(r"(lazy_static::lazy::Lazy|std::sync::(LazyLock|OnceLock|lazy_lock::LazyLock|once_lock::OnceLock))(::|<)", c)]


HASHITER = re.compile(r"(HashMap|HashSet)(<[^>]*>|::<[^>]*>)?>?::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$|<.*(HashMap|HashSet)<.*> as std::iter::IntoIterator>::into_iter$")
ADAPT = re.compile(r"::(map|filter|filter_map|cloned|copied|flat_map|flatten|chain|inspect|into_iter|iter|by_ref|as_ref)$")
FREE = re.compile(r"::(count|any|all|max|min|sum|len|is_empty|size_hint|contains|retain)$")
BOUND = re.compile(r"::(collect|extend|from_iter)$")


def hash_order(P, rep, f):
    """iteration over a hash container whose order can reach the result"""
    track = {}
    sorts = any(re.search(r"::sort(_\w+)?$", c["decl"]) for c, *_ in calls(f))
    found = 0
    for _ in range(3):
        for c, args, dest, line, bb in calls(f):
            full = P.F[c["inst"]]["path"] if c.get("inst") in P.F else c["decl"]
            al = [a.get("mv", a.get("cp")) for a in args]
            al = [a if not isinstance(a, list) else a[0] for a in al]
            d = dest if not isinstance(dest, list) else dest[0]
            ts = [P.T[f["locals"][a]]["s"] for a in al[:1] if isinstance(a, int)]
            hashy = HASHITER.search(full) or (c["decl"].endswith("into_iter") and ts and re.search(r"^&?(mut )?std::collections::(Hash|hash_)", ts[0]))
            key = "%s|hash order|%s" % (f["path"], c["decl"])
            if hashy and not full.endswith("retain"):
                found += 1
                track[d] = line
                continue
            src = [a for a in al if a in track]
            if not src:
                continue
            if FREE.search(c["decl"]):
                rep.ok(key)
            elif BOUND.search(c["decl"]):
                dt = P.T[f["locals"][d]]["s"] if c["decl"].endswith(("collect", "from_iter")) else (ts or [""])[0]
                if re.search(r"BTree|HashMap|HashSet", dt):
                    rep.ok(key)
                elif sorts:
                    rep.undec(key, "collected from a hash container, then sorted")
                else:
                    rep.fail(key, "%s:%s: the order of a hash container, different in every run, reaches %s" % (f["file"], line, dt))
            elif ADAPT.search(c["decl"]):
                track[d] = line
            else:
                rep.undec(key, "%s:%s: iteration over a hash container" % (f["file"], line))
        # moves and borrows
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and isinstance(s[1], int):
                    txt = s[2]
                    for l in list(track):
                        if txt[0] in ("use", "ref", "mutref") and re.search(r"(?<![0-9])%d(?![0-9])" % l, repr(txt[1:])):
                            track.setdefault(s[1], track[l])


def purity(P, rep):
    rep.rule = (
        "Effect analysis: starting from every public function, follow every call, function value and closure in the MIR; no path reaches a function that reads the clock, environment, "
        "randomness, streams, threads or (unless the public function is given a path) files; no static is mutable or holds interior mutability other than a lazily initialised constant; "
        "no lazy initialiser captures a value; no type of the crate holds interior mutability; the iteration order of a hash container never reaches a result."
    )
    rep.trusted = TB
    roots = P.roots(lambda r: r["reach"])
    if len(roots) < 60:
        raise Anchor("public functions")
    par = reach(P, [r["inst"] for r in roots])
    rep.analysed.update(P.F[i]["path"] for i in par if P.F[i]["local"])
    bad = set()
    for r in roots:
        rep.ok("root|" + (r.get("impl_self") or "") + "|" + r["path"])
    for i in par:
        f = P.F[i]
        names = {f["path"]}
        if f["local"] and "blocks" in f:
            names |= {c["decl"] for c, *_ in calls(f)}
            hash_order(P, rep, f)
            for b in f["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                        rep.fail("%s|address" % f["path"], "%s: an address is turned into a number" % f["file"])
        for p in names:
            for rx, what in AMBIENT:
                if re.search(rx, p):
                    k = "%s|%s" % (p, what)
                    if k not in bad:
                        bad.add(k)
                        rep.fail(k, "%s %s: %s" % (p, what, chain(P, par, i)))
    # files: only from a function given a path
    loader = re.compile(r"beider_morse::(ConfigFiles|lang::|languages::|rule::)")
    nopath = [
        r["inst"] for r in roots
        if not any(re.search(r"std::path::|AsRef<", t) for t in sig_types(P, P.F[r["inst"]])) and not loader.search(r["path"] + " " + (r.get("impl_self") or ""))
    ]
    if len(nopath) < 40:
        raise Anchor("public functions that take no path")
    par2 = reach(P, nopath)
    rep.extra["functions held to touch no file"] = len(nopath)
    for i in par2:
        f = P.F[i]
        if re.search(FS, f["path"]):
            rep.fail("%s|touches files" % f["path"], "%s touches the file system: %s" % (f["path"], chain(P, par2, i)))
    rep.ok("files|public functions outside the loading of Beider-Morse configurations")
    for s in P.D["statics"]:
        k = "static|" + s["path"]
        rest = deref_lazy(s["cells"])
        if s["mut"]:
            rep.fail(k, "%s:%s: mutable static" % (s["file"], s["line"]))
        elif s["tls"] and s["cells"]:
            rep.fail(k, "%s:%s: thread-local mutable state" % (s["file"], s["line"]))
        elif rest:
            rep.fail(k, "%s:%s: static of type %s holds interior mutability (%s)" % (s["file"], s["line"], s["ty"], rest[0]))
        else:
            rep.ok(k)
    for i in par:
        f = P.F[i]
        if not f["local"] or "blocks" not in f:
            continue
        for c, args, dest, line, bb in calls(f):
            if re.search(r"sync::(OnceLock|LazyLock|once_lock::OnceLock)::<.*>::(get_or_init|get_or_try_init)$|sync::(OnceLock|once_lock)", c["decl"]) and c["decl"].endswith(("get_or_init", "get_or_try_init", "set")):
                if c["decl"].endswith("set"):
                    # a local cell is no hidden state
                    if any("OnceLock" in s["ty"] for s in P.D["statics"]):
                        rep.fail("%s|lazy set" % f["path"], "%s:%s: a lazily initialised static is set from a call" % (f["file"], line))
                    continue
                ct = [P.T[t] for t in c.get("args", []) if isinstance(t, int)]
                caps = any(t["k"] == "closure" and t["upvars"] for t in ct)
                rep.check("%s|lazy init" % f["path"], not caps, "%s:%s: the initialiser of a lazily initialised value captures a value of the call" % (f["file"], line))
    for a in P.D["adts"]:
        k = "type|" + a["path"]
        if "__private" in a["path"] or a["path"].startswith("_::") or "__Visitor" in a["path"] or "__Field" in a["path"]:
            continue
        cells = [c for c in a["cells"] if not c.endswith(".dyn")]
        once = all(re.search(r"Once(Cell|Lock)|Lazy(Cell|Lock)?(::|$)", c) for c in cells)
        rep.check(k, not cells, "%s:%s: %s holds interior mutability (%s)" % (a["file"], a["line"], a["path"], (cells or [""])[0]), undecided=once)
    rep.extra["statics"] = [s["path"] for s in P.D["statics"]]


def threads(P, rep):
    rep.rule = "Trait solving: Send and Sync hold for every public type; no unsafe block, function or hand-written unsafe impl in the crate."
    rep.trusted = TB[:1]
    pub = [a for a in P.D["adts"] if a["pub"]]
    if len(pub) < 15:
        raise Anchor("public types")
    for a in pub:
        if a["generic"]:
            rep.undec("type|" + a["path"], "generic type")
            continue
        for tr in ("send", "sync"):
            rep.check("type|%s|%s" % (a["path"], tr), a[tr], "%s:%s: %s is not %s" % (a["file"], a["line"], a["path"], tr.capitalize()))
    rep.analysed.update(a["path"] for a in pub)
    for u in P.D["unsafes"]:
        if "TrivialClone" in u["in"]:
            continue
        rep.fail("unsafe|%s|%s" % (u["what"], u["in"]), "%s: %s in %s" % (u["at"], u["what"], u["in"]))
    for f in P.D["fns"]:
        if f["local"] and f.get("unsafe"):
            rep.fail("unsafe|function|" + f["path"], "%s:%s: unsafe function" % (f["file"], f["line"]))
    rep.ok("unsafe|%d functions" % sum(1 for f in P.D["fns"] if f["local"]))
    for tr in ("Send", "Sync"):
        for i in P.D["impls"]:
            if i["trait"].endswith("marker::" + tr):
                rep.fail("impl|%s|%s" % (tr, i["self"]), "%s:%s: hand-written %s" % (i["file"], i["line"], tr))
