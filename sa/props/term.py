"""C39: every loop and every recursion of the crate ends."""
import os, signal, traceback
from multiprocessing import Pool

import an
import inv as INV
from engine.core import Limit
from engine.interp import FnInfo
from props.total import callees, components

NEXT = {"next", "next_back", "nth", "nth_back", "next_if", "next_if_eq"}
ENDLESS = ("RangeFrom", "Cycle", "Repeat", "RepeatWith", "FromFn", "Successors")
WRAP = {
    "Map", "Filter", "FilterMap", "Enumerate", "Peekable", "Rev", "Skip", "SkipWhile", "TakeWhile", "MapWhile", "StepBy", "Copied", "Cloned",
    "Inspect", "Fuse", "Scan", "FlatMap", "Flatten",
}
DRAIN = {"collect", "count", "last", "fold", "for_each", "sum", "product", "max", "min", "max_by", "max_by_key", "min_by", "min_by_key", "from_iter", "extend", "partition", "unzip"}
CAP = 1 << 40


def finite(P, t, d=0):
    """True, False or None: does an iterator of this type give finitely many items"""
    T = P.T[t]
    if d > 12:
        return None
    if T["k"] == "ref":
        return finite(P, T["elem"], d + 1)
    if T["k"] != "adt":
        return None
    n, p = T["path"].split("::")[-1], T["path"]
    if p.startswith("enum_iterator::"):
        return True
    a = [x for x in T.get("args") or [] if isinstance(x, int)]
    if p.split("::")[0] not in ("std", "core", "alloc"):
        return None
    if n in ENDLESS:
        return False
    if n in ("Take", "Range", "RangeInclusive"):
        return True
    if n == "Zip":
        rs = [finite(P, x, d + 1) for x in a[:2]]
        return True if True in rs else False if rs == [False, False] else None
    if n == "Chain":
        rs = [finite(P, x, d + 1) for x in a[:2]]
        return True if rs == [True, True] else False if False in rs else None
    if n in WRAP:
        r = finite(P, a[0], d + 1)
        # items of a flattened iterator are lists of the crate
        return r if not (n in ("TakeWhile", "MapWhile", "Scan") and r is False) else None
    if n == "Box":
        return finite(P, a[0], d + 1) if a else None
    return True


def base(p):
    return p if isinstance(p, int) else p[0]


def defs_of(f):
    D = {}
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=":
                D.setdefault(base(s[1]), []).append(s)
        t = b["t"]
        if t[0] == "call":
            D.setdefault(base(t[3]), []).append(("call", t[3], t))
    return D


def target(f, D, o):
    """the place a mutable reference operand points to"""
    p = o.get("mv", o.get("cp")) if isinstance(o, dict) else None
    for _ in range(8):
        if p is None:
            return None
        l = base(p)
        if not isinstance(p, int) and [e for e in p[1] if e[0] != "D"]:
            return p
        ds = D.get(l, [])
        if len(ds) != 1:
            return l if l <= f["argc"] and not ds else None
        s = ds[0]
        if s[0] == "call":
            return None
        if s[2][0] == "ref":
            q = s[2][2]
            if not isinstance(q, int) and q[1] == [["D"]]:
                p = q[0]
                continue
            return q
        if s[2][0] == "use":
            p = s[2][1].get("mv", s[2][1].get("cp")) if isinstance(s[2][1], dict) else None
            continue
        return None
    return None


def ends(inf, f, b, comp, head):
    """the None result of the call in block b leads out of the loop"""
    t = f["blocks"][b]["t"]
    d, n, seen = t[3], t[4], set()
    if not isinstance(d, int) or n is None:
        return False
    disc = set()
    cur = n
    while cur in comp and cur not in seen:
        seen.add(cur)
        for s in f["blocks"][cur]["s"]:
            if s[0] == "=" and s[2][0] == "discr" and s[2][1] == d and isinstance(s[1], int):
                disc.add(s[1])
        u = f["blocks"][cur]["t"]
        if u[0] == "goto":
            cur = u[1]
            continue
        if u[0] == "switch":
            o = u[1].get("mv", u[1].get("cp")) if isinstance(u[1], dict) else None
            if o in disc:
                none = [x[1] for x in u[2] if x[0] == 0] or [u[3]]
                w, vis = [none[0]], set()
                while w:
                    x = w.pop()
                    if x not in comp or x in vis:
                        continue
                    if x == head:
                        return False
                    vis.add(x)
                    w.extend(inf.succ[x])
                return True
        return False
    return False


def driven(P, f, inf, head):
    """every turn of the loop takes an item from an iterator that runs out, and the loop is left when it has"""
    comp = inf.comp[head]
    D = defs_of(f)
    drv, name = set(), None
    for b in comp:
        t = f["blocks"][b]["t"]
        if t[0] != "call" or t[1].get("decl", "").split("::")[-1] not in NEXT or not t[1].get("args"):
            continue
        if not t[1]["decl"].startswith(("std::iter", "core::iter")):
            continue
        if finite(P, t[1]["args"][0]) is not True:
            continue
        p = target(f, D, t[2][0])
        if p is None or not ends(inf, f, b, comp, head):
            continue
        l = base(p)
        ok = True
        for c in comp:
            B = f["blocks"][c]
            for s in B["s"]:
                if s[0] == "=" and base(s[1]) == l:
                    ok = False
            u = B["t"]
            if u[0] == "call":
                if base(u[3]) == l:
                    ok = False
                for o in u[2]:
                    q = target(f, D, o)
                    if q is not None and base(q) == l and not (u[1].get("decl", "").startswith(("std::iter", "core::iter"))):
                        T = P.T[f["locals"][base(o.get("mv", o.get("cp")))]]
                        if T["k"] == "ref" and not T["mut"]:
                            continue
                        ok = False
        if ok:
            drv.add(b)
    if not drv:
        return False
    w, vis = [s for s in inf.succ[head] if s in comp] if head not in drv else [], set()
    while w:
        x = w.pop()
        if x == head:
            return False
        if x in vis or x in drv or x not in comp:
            continue
        vis.add(x)
        w.extend(inf.succ[x])
    return True


# ---------------------------------------------------------------- ranking
def measures(E, s, v, name, out, d=0):
    k = v[0]
    if d > 5 or len(out) > 60:
        return
    if k == "i":
        out[name] = v
    elif k == "s":
        i = s.st[v[1]]
        out[name + ".len"] = i.bl
        out[name + ".chars"] = i.cl
    elif k == "seq":
        out[name + ".len"] = v[1]
    elif k in ("agg", "clo"):
        for n, x in enumerate(v[1] if k == "agg" else v[2]):
            measures(E, s, x, "%s.%d" % (name, n), out, d + 1)
    elif k in ("sh", "mu"):
        try:
            measures(E, s, E.rd(s, v), name, out, d + 1)
        except Exception:
            pass
    elif k == "en":
        if len(v[1]) == 1:
            out[name + ".variant"] = ("i", 0, v[1][0][0])
            for n, x in enumerate(v[1][0][1]):
                measures(E, s, x, "%s/%d.%d" % (name, v[1][0][0], n), out, d + 1)
    elif k == "obj":
        for n, x in enumerate(v[3]):
            measures(E, s, x, "%s.%s%d" % (name, v[1], n), out, d + 1)


def snapshot(E, s, fr, live):
    out = {}
    for l in sorted(live):
        v = s.mem.get((fr, l))
        if v is not None:
            measures(E, s, v, "_%d" % l, out)
    return out


def turn(E, f, inf, fr, h, heads):
    """[(signature, state after a turn, measures before, measures after)]"""
    out = []
    live = inf.live[h]
    for sg, s0 in heads:
        s = s0.copy()
        m = snapshot(E, s, fr, live)
        names = sorted(m)
        s.mem[("tmp", "rank")] = ("agg", tuple(m[n] for n in names))
        E.stack.append([f, f.get("line", 0)])
        try:
            back = E.run_blocks(f, inf, fr, s, (h, inf.comp[h]))
        finally:
            E.stack.pop()
        for t in back:
            if t.z.bot:
                continue
            q0 = t.mem.get(("tmp", "rank"))
            if q0 is None or len(q0[1]) != len(names):
                out.append((sg, t, None, None))
                continue
            out.append((sg, t, dict(zip(names, q0[1])), snapshot(E, t, fr, live)))
    return out


def rank(E, trans):
    """transitions no combination of the measures ranks, and the measures used"""
    if any(a is None for _, _, a, _ in trans):
        return trans, []
    left = list(trans)
    used = []
    if not left:
        return [], []
    names = set(left[0][2])
    for _, _, a, b in left:
        names &= set(a) & set(b)

    def delta(t, a, b):
        return E.lb(t, b, a), E.ub(t, b, a)

    D = {}
    for n in names:
        D[n] = [delta(t, a[n], b[n]) for _, t, a, b in trans]
    ix = list(range(len(trans)))
    progress = True
    while ix and progress:
        progress = False
        for n in sorted(names):
            ds = [D[n][i] for i in ix]
            # non-increasing, and where it falls it has a least value
            if all(u is not None and u <= 0 for _, u in ds):
                go = [i for i in ix if D[n][i][1] < 0 and floor(E, trans[i][1], trans[i][2][n])]
                if go:
                    used.append(n + " falls")
                    ix = [i for i in ix if i not in go]
                    progress = True
                    break
            if all(l is not None and l >= 0 for l, _ in ds):
                for lim in [None] + sorted(names):
                    if lim == n:
                        continue
                    if lim is not None and not all(D[lim][i][1] is not None and D[lim][i][1] <= 0 for i in ix):
                        continue
                    go = [i for i in ix if D[n][i][0] > 0 and ceiling(E, trans[i][1], trans[i][2][n], trans[i][2][lim] if lim else None)]
                    if go:
                        used.append(n + " grows up to " + (lim or "a constant"))
                        ix = [i for i in ix if i not in go]
                        progress = True
                        break
                if progress:
                    break
    return [trans[i] for i in ix], used


def floor(E, t, a):
    l = E.lb(t, a)
    return l is not None and l > -CAP


def ceiling(E, t, a, b):
    u = E.ub(t, a) if b is None else E.ub(t, a, b)
    return u is not None and u < CAP


def still(E, t, a, b, use):
    """the measure of a ranking need not move in this turn"""
    n, way = use.split(" ")[:2]
    if n not in a or n not in b:
        return False
    return (E.ub(t, b[n], a[n]) if way == "falls" else E.lb(t, b[n], a[n])) == 0


def light(P, i):
    """the result of this function says nothing about counters and texts"""
    f = P.F[i]

    def owned(ty, d=0):
        t = P.T[ty]
        if t["k"] in ("ref", "ptr", "int") or d > 6:
            return False
        if t["k"] not in ("adt", "tuple", "array", "bool", "char", "str", "slice") or (t["k"] == "adt" and t["path"].startswith("nom::")):
            return False
        if t["k"] == "adt" and t.get("local") and not all(owned(x[1], d + 1) for v in t["variants"] for x in v["fields"]):
            return False
        return all(owned(a, d + 1) for a in (t.get("args") or []) + (t.get("elems") or []) if isinstance(a, int)) and (not isinstance(t.get("elem"), int) or owned(t["elem"], d + 1))

    return owned(f["locals"][0]) or len(f["blocks"]) > 400


def below(G, i):
    seen, w = set(), list(G.get(i, ()))
    while w:
        j = w.pop()
        if j not in seen:
            seen.add(j)
            w.extend(G.get(j, ()))
    return seen


def _rank(job):
    """first with the results of calls that say nothing about counters unknown, then through every call"""
    i, secs, heads, opaque, calls = job
    soft = frozenset(c for c in calls if light(_rank.P, c))
    r = _rank1((i, secs / 2, heads, opaque | soft))
    if soft and (r[2] or any(x[1] for x in r[1].values())):
        r2 = _rank1((i, secs, heads, opaque))
        if not r2[2]:
            return r2
        # not followed through every call: nothing is held against the loop
        return r[0], {h: x[:3] + (None, x[4] or "not followed through every call in time") for h, x in r[1].items()}, r[2], r[3]
    return r


def _rank1(job):
    i, secs, heads, opaque = job
    P, opts = _rank.P, _rank.opts
    E = P.engine(opaque=frozenset(opaque) - {i}, induct=opts["induct"], root=i, **opts.get("cfg", {}))
    E.loops = []
    f = P.F[i]
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(max(1, int(secs)))
    res, err = {}, None
    try:
        an.run(E, f)
        loops, E.loops = E.loops, None
        trans = {}
        for g, inf, fr, h, H in loops:
            if h in heads:
                trans.setdefault(h, []).extend((n,) + x for n, x in enumerate(turn(E, g, inf, fr, h, H)))
        for h in heads:
            ts = [x[1:] for x in trans.get(h, [])]
            left, used = rank(E, ts)
            stuck = None
            vague = None
            for sg, t, a, b in left:
                if "imp" in t.flags:
                    vague = "a turn goes through code without an abstract model"
                elif a is None:
                    vague = "a turn could not be followed"
                elif opts.get("show"):
                    print("LEFT", f["path"], h, [(n, E.lb(t, b[n], a[n]), E.ub(t, b[n], a[n]), E.lb(t, a[n])) for n in sorted(a) if n in b][:40])
            inf = E.info(f)
            for sg, t, a, b in left:
                if "imp" in t.flags or a is None:
                    continue
                if used and all(still(E, t, a, b, n) for n in used):
                    stuck = "a turn may leave %s as it was" % ", ".join(sorted({n.split(" ")[0] for n in used}))
                elif a and all(n in b and E.apart(t, b[n], a[n]) == 0 for n in a):
                    stuck = "a turn changes none of the counters and lengths it works on"
                elif a and set(a) == set(b) and all(E.apart(t, b[n], a[n]) is not None for n in a):
                    moved = sorted(n for n in a if E.apart(t, b[n], a[n]))
                    stuck = "a turn moves %s by fixed amounts, with nothing to bound it" % ", ".join(moved)
            res[h] = (len(ts), len(left), used, stuck, vague)
    except _Late:
        err = "time limit"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "analysis gave up: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    if opts.get("show"): print(f["path"], err, E.steps, sorted({P.F[k]["path"] for k in opaque})[:0])
    return i, res, err, sorted({P.F[k]["path"] for k in E.analysed if k in P.F and P.F[k]["local"]})


class _Late(BaseException):
    pass


def _late(*a):
    raise _Late()


def line_of(f, comp):
    ls = [s[3] for b in comp for s in f["blocks"][b]["s"] if s[0] == "=" and len(s) > 3]
    return min(ls) if ls else f.get("line", 0)


def skip(f):
    p = f["path"]
    return "serde" in p or "Deserialize" in p or p.endswith(("::next_variant", "::previous_variant"))


def depends(f):
    """{local: parameters its value may depend on}, flow-insensitive; what a call is given by mutable reference depends on its other arguments"""
    dep = {i: {i} for i in range(1, f["argc"] + 1)}
    alias = {}  # reference local -> local it points into

    def op(o):
        p = o.get("mv", o.get("cp")) if isinstance(o, dict) else None
        return set() if p is None else set(dep.get(base(p), ()))

    def rv(r):
        k = r[0]
        if k == "ref":
            return set(dep.get(base(r[2]), ()))
        if k in ("discr", "len", "addr"):
            return set(dep.get(base(r[1]), ()))
        out = set()
        for x in r[1:]:
            for o in x if isinstance(x, list) else [x]:
                if isinstance(o, dict):
                    out |= op(o)
        return out

    ch = True
    while ch:
        ch = False

        def add(l, d):
            nonlocal ch
            for _ in range(4):
                if not d <= dep.setdefault(l, set()):
                    dep[l] |= d
                    ch = True
                if l not in alias:
                    break
                l = alias[l]

        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    if s[2][0] == "ref" and s[2][1] and isinstance(s[1], int):
                        alias[s[1]] = base(s[2][2])
                    add(base(s[1]), rv(s[2]))
            t = b["t"]
            if t[0] == "call":
                d = set()
                for o in t[2]:
                    d |= op(o)
                add(base(t[3]), d)
                for o in t[2]:
                    p = o.get("mv", o.get("cp")) if isinstance(o, dict) else None
                    if isinstance(p, int) and p in alias:
                        add(p, d)
    return dep


PART = {"last", "first", "split_last", "split_first", "index"}
PASS = {"deref", "as_slice", "as_ref", "borrow", "len", "is_empty", "concat", "clone", "to_vec", "to_owned", "push", "as_deref"}


def looked(f, D, k, n):
    """names of the calls that look into parameter k"""
    out = set()
    held = {k}
    ch = True
    while ch:
        ch = False
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and isinstance(s[1], int) and s[1] not in held:
                    r = s[2]
                    q = r[2] if r[0] == "ref" else r[1].get("mv", r[1].get("cp")) if r[0] in ("use",) and isinstance(r[1], dict) else None
                    if q is not None and base(q) in held and (isinstance(q, int) or all(e[0] == "D" for e in q[1])):
                        held.add(s[1])
                        ch = True
            t = b["t"]
            if t[0] == "call" and t[2]:
                p = t[2][0].get("mv", t[2][0].get("cp")) if isinstance(t[2][0], dict) else None
                if p is not None and base(p) in held:
                    w = t[1].get("decl", "?").split("::")[-1]
                    if w in PASS:
                        if w in ("deref", "as_slice", "as_ref", "borrow") and isinstance(t[3], int) and t[3] not in held:
                            held.add(t[3])
                            ch = True
                    else:
                        out.add(w)
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "use" and isinstance(s[2][1], dict):
                q = s[2][1].get("mv", s[2][1].get("cp"))
                if isinstance(q, list) and q[0] in held and any(e[0] == "I" for e in q[1]):
                    out.add("index")
    return out


def recursion(P, rep):
    """the functions that call themselves on other rule files"""
    ids = [f["id"] for f in P.D["fns"] if f["local"] and "blocks" in f and not skip(f) and "{closure" not in f["path"]]
    G = callees(P, ids)
    G = {i: {j for j in g if j in P.F and "blocks" in P.F[j]} for i, g in G.items() if i in P.F and "blocks" in P.F[i]}
    found = 0
    for c in components(G):
        if not (len(c) > 1 or any(i in G[i] for i in c)):
            continue
        fs = [P.F[i] for i in c if not skip(P.F[i])]
        if not any("rule" in f["path"] and "::engine::" not in f["path"] for f in fs):
            rep.extra.setdefault("recursive, not covered", []).append(sorted(f["path"] for f in fs))
            continue
        for f in fs:
            calls = [b for b in f["blocks"] if b["t"][0] == "call" and b["t"][1].get("inst") in c]
            key = "recursion|" + f["path"]
            found += 1
            if len(c) > 1 or not calls:
                rep.undec(key, "a recursion through several functions or a closure")
                continue
            rep.analysed.add(f["path"])
            dep = depends(f)
            inf = FnInfo(f)
            n = f["argc"]
            for b in calls:
                i = f["blocks"].index(b)
                arg = []
                for o in b["t"][2]:
                    p = o.get("mv", o.get("cp")) if isinstance(o, dict) else None
                    arg.append(set() if p is None else set(dep.get(base(p), ())))
                D = defs_of(f)
                passed = {k for k in range(1, n + 1) if target(f, D, b["t"][2][k - 1]) in (k, [k, [["D"]]])}
                grows = [k for k in range(1, n + 1) if k in arg[k - 1] and k not in passed]
                ok = guard = False
                part = None
                for j, B in enumerate(f["blocks"]):
                    t = B["t"]
                    if t[0] != "switch" or j not in inf.idx:
                        continue
                    p = t[1].get("mv", t[1].get("cp")) if isinstance(t[1], dict) else None
                    S = dep.get(base(p), set()) if p is not None else set()
                    sides = [x[1] for x in t[2]] + [t[3]]
                    hit = [reaches(inf, x, i) for x in sides]
                    if not (any(hit) and not all(hit)):
                        continue
                    for k in grows:
                        if k in S:
                            guard = True
                            how = looked(f, D, k, n)
                            if how and how <= PART:
                                part = sorted(how)
                            elif S <= arg[k - 1]:
                                ok = True
                where = "%s:%s: %s" % (f["file"], f["line"], f["path"])
                if ok:
                    rep.ok(key)
                elif part:
                    rep.fail(key, where + " calls itself, and its test looks at one entry (%s) of what it records: files that include each other are read for ever" % ", ".join(part))
                elif not grows or not guard:
                    rep.fail(key, where + " calls itself with nothing that grows from call to call and stops it: a file that includes itself is read for ever")
                else:
                    rep.fail(key, where + " calls itself, and what its test looks at is not all recorded for the next call: a file that includes itself is read for ever")
    return found


def reaches(inf, a, b):
    seen, w = set(), [a]
    while w:
        x = w.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        w.extend(inf.succ[x])
    return False


def ends_all(P, rep, secs=150, show=False):
    rep.rule = (
        "Every head of a loop of the crate (weak topological order of each function's MIR) is an obligation. It is discharged when (a) every path from "
        "the head back to it passes a call that takes an item from an iterator of a finite type which the loop neither reassigns nor hands to other code, and the "
        "empty answer of that call leads out of the loop; or (b) a lexicographic ranking over counters, text lengths and list lengths exists: the abstract interpreter "
        "follows one turn from every stable abstract state at the head with the values before the turn kept, and every turn lowers a measure that is bounded below or raises "
        "one that is bounded by a constant or by a measure that does not grow. A turn that provably leaves all measures of the ranking as they were is a violation. "
        "No endless iterator is drained, and a function that reads rule files and calls itself is stopped by a test on something it adds to at every call."
    )
    jobs = []
    for f in P.D["fns"]:
        if not f["local"] or "blocks" not in f or skip(f):
            continue
        inf = FnInfo(f)
        todo = []
        for h in sorted(inf.heads):
            if driven(P, f, inf, h):
                rep.analysed.add(f["path"])
                rep.ok("loop|%s|%s" % (f["path"], h))
            else:
                todo.append(h)
        if todo:
            jobs.append((f["id"], todo))
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1].get("decl", "").split("::")[-1] in DRAIN and t[1]["decl"].startswith(("std::iter", "core::iter")):
                for o in t[2]:
                    p = o.get("mv", o.get("cp")) if isinstance(o, dict) else None
                    if isinstance(p, int) and finite(P, f["locals"][p]) is False:
                        rep.fail("drain|%s|%s" % (f["path"], t[1]["decl"]), "%s: %s takes every item of an endless iterator" % (f["file"], f["path"]))
    recursion(P, rep)
    rep.extra["ranked_functions"] = sorted(P.F[i]["path"] for i, _ in jobs)
    if jobs:
        P.atoms()
        invs = {}
        x, fns = INV.infer(P, "beider_morse::rule::Rule", coarse=True)
        rep.analysed.update(fns)
        if x is not None:
            invs[P.T[P.adt("beider_morse::rule::Rule")]["path"]] = x
        G = callees(P, [i for i, _ in jobs])
        cyc = set()
        for c in components({i: g for i, g in G.items() if i in P.F and "blocks" in P.F[i]}):
            if len(c) > 1 or any(i in G[i] for i in c):
                cyc |= c
        _rank.P, _rank.opts = P, {"cfg": {"inv": invs}, "induct": cyc, "show": show}
        work = [(i, secs, frozenset(hs), frozenset(cyc), frozenset(j for j in below(G, i) if j in P.F and "blocks" in P.F[j])) for i, hs in jobs]
        with Pool(min(8, len(work))) as pool:
            for i, res, err, fns in pool.imap_unordered(_rank, work, chunksize=1):
                f = P.F[i]
                inf = FnInfo(f)
                rep.analysed.update(fns)
                for h in dict(jobs)[i]:
                    key = "loop|%s|%s" % (f["path"], h)
                    if h not in res:
                        rep.undec(key, err or "not reached")
                        continue
                    n, left, used, stuck, vague = res[h]
                    rep.extra.setdefault("rankings", {})["%s:%s %s" % (f["file"], line_of(f, inf.comp[h]), f["path"])] = used or ["no turn is possible"]
                    if not left and not err:
                        rep.ok(key)
                    elif stuck:
                        rep.fail(key, "%s:%s: %s: %s, so the loop need not end" % (f["file"], line_of(f, inf.comp[h]), f["path"], stuck))
                    else:
                        rep.undec(key, vague or err or "no ranking found for %d of %d turns" % (left, n))
