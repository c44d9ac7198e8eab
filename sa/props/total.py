"""Totality: no input makes the listed public functions panic."""
import os, signal, sys, traceback
from multiprocessing import Pool

import an

SKIP = ("std::fmt::", "serde", "std::cmp::", "std::clone::Clone", "std::hash::")


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def _go(job):
    r = _one(job, True)
    if r[1] or r[4] or r[5]:
        # callees as unknown results are not enough: analyse through them
        r = _one(job, False)
    return r


def _one(job, opaque):
    name, inst, given_key, secs = job
    P, opts = _go.P, _go.opts
    f = P.F[inst]
    cfg = dict(opts.get("cfg", {}))
    if opaque:
        cfg["opaque"] = {i for i in opts["all"] if i != inst and not any(P.T[t]["k"] == "ref" and P.T[t]["mut"] for t in P.F[i]["locals"][1 : P.F[i]["argc"] + 1])}
        cfg["root"] = inst
    E = P.engine(**cfg)
    if opts.get("setup"):
        opts["setup"](P, E)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    err = None
    outs = 0
    try:
        outs = len(an.run(E, f, pre=opts.get("pre")))
    except TimeUp:
        err = "time limit"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "analysis gave up: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    return name, err, outs, list(E.sites.items()), [(k, v) for k, v in E.alarms.items()], list(E.undecided.items()), dict(E.notes), sorted({P.F[i]["path"] for i in E.analysed if i in P.F and P.F[i]["local"]})


def run_roots(P, rep, jobs, opts, secs=700):
    P.atoms()
    opts["all"] = {i for _, i in jobs}
    _go.P, _go.opts = P, opts
    with Pool(min(8, max(1, len(jobs)))) as pool:
        for name, err, outs, sites, alarms, undec, notes, fns in pool.imap_unordered(_go, [(n, i, None, secs) for n, i in jobs], chunksize=1):
            rep.analysed.update(fns)
            rep.notes.update(notes)
            und = {k: v for k, v in undec}
            for (fn, line, kind, what), ok in sites:
                if ok:
                    rep.ok("%s|%s|%s" % (fn, kind, what))
            for (fn, kind, what), a in alarms:
                rep.fail(
                    "%s|%s|%s" % (fn, kind, what),
                    "%s:%s: %s (%s) may fail; reached through %s" % (a["file"], a["line"], kind, what, " -> ".join(a["chain"][:12])),
                )
            for (fn, kind, what), _ in und.items():
                rep.undec("%s|%s|%s" % (fn, kind, what), "reached only through code without an abstract model")
            if err:
                rep.undec("root|" + name, err)
            elif not outs and not alarms:
                rep.undec("root|" + name, "no way through the function was found")
            else:
                rep.ok("root|" + name)


def callees(P, ids):
    """{id: local functions it calls, directly or through closures and library code}"""
    from props.effects import mentions

    memo = {}

    def direct(i):
        if i not in memo:
            f = P.F.get(i)
            memo[i] = mentions(P, f) if f and "blocks" in f else set()
        return memo[i]

    out = {}
    work = list(ids)
    while work:
        i = work.pop()
        if i in out:
            continue
        seen, stack, res = {i}, list(direct(i)), set()
        while stack:
            j = stack.pop()
            if j in seen or j not in P.F:
                continue
            seen.add(j)
            if P.F[j]["local"] and "{closure" not in P.F[j]["path"]:
                res.add(j)
            else:
                stack.extend(direct(j))
        out[i] = res | ({i} if i in direct(i) else set())
        work.extend(res)
    return out


def cyclic(G):
    """functions that can call themselves again"""
    out = set()
    for i in G:
        seen, stack = set(), list(G[i])
        while stack:
            j = stack.pop()
            if j in seen:
                continue
            seen.add(j)
            stack.extend(G.get(j, ()))
        if i in seen:
            out.add(i)
    return out


CHEAP = 60


def components(G):
    """strongly connected components, callees first"""
    idx, low, on, st, out = {}, {}, set(), [], []

    def go(v):
        work = [(v, iter(sorted(G[v])))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in G:
                    continue
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(G[w]))))
                    break
                if w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == u:
                            break
                    out.append(c)

    for v in sorted(G):
        if v not in idx:
            go(v)
    return out


def _mod(job):
    """one function on unknown arguments"""
    i, secs, opaque, splits = job
    P, opts = _go.P, _go.opts
    E = P.engine(opaque=opaque - {i}, induct=opts["induct"], root=i, **opts.get("cfg", {}))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(secs)))
    err = None
    try:
        an.run(E, P.F[i], splits=splits)
    except TimeUp:
        err = "time limit"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "analysis gave up: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    return i, dict(
        err=err, steps=E.steps, alarms=dict(E.alarms), undec=dict(E.undecided), notes=dict(E.notes), sites=list(E.sites.items()),
        fns=sorted({P.F[k]["path"] for k in E.analysed if k in P.F and P.F[k]["local"]}), used=set(E.opaque_used),
    )


def modular(P, jobs, opts, secs):
    """callees first: a function that cannot fail for any arguments, and is expensive to analyse,
    is an unknown result at its calls; other functions are analysed through at every call"""
    P.atoms()
    ids = {i for _, i in jobs}
    G = {i: g for i, g in callees(P, ids).items() if i in P.F and "blocks" in P.F[i] and "std::fmt::" not in P.F[i]["path"]}
    opts["induct"] = cyclic(G)
    _go.P, _go.opts = P, opts
    comps = components(G)
    of = {i: n for n, c in enumerate(comps) for i in c}
    need = [{of[j] for i in c for j in G[i] if j in of} - {n} for n, c in enumerate(comps)]
    done, res, opaque, running, second = set(), {}, set(), {}, set()
    import time

    def owned(ty, depth=0):
        """no reference in a value of this type"""
        t = P.T[ty]
        if t["k"] in ("ref", "ptr") or depth > 6:
            return False
        return all(owned(a, depth + 1) for a in (t.get("args") or []) + (t.get("elems") or []) if isinstance(a, int)) and (not isinstance(t.get("elem"), int) or owned(t["elem"], depth + 1))

    def clean(r):
        return not (r["err"] or r["alarms"] or r["undec"] or r["notes"])

    with Pool(8) as pool:
        while len(done) < len(comps):
            for n, c in enumerate(comps):
                if n not in done and n not in running and need[n] <= done:
                    if any(res[j]["stuck"] for i in c for j in G[i] if j in res and j not in opaque):
                        for i in c:
                            res[i] = dict(err="a callee could not be analysed in time", steps=0, alarms={}, undec={}, notes={}, sites=[], fns=[], used=set(), stuck=True)
                        done.add(n)
                        continue
                    # members of a recursion: by induction on the depth of calls, each is analysed with the others unable to fail
                    running[n] = [pool.apply_async(_mod, ((i, secs, frozenset(opaque | c if len(c) > 1 else opaque), i in ids),)) for i in sorted(c)]
            for n, rs in list(running.items()):
                if all(r.ready() for r in rs):
                    for r in rs:
                        i, v = r.get()
                        v["stuck"] = v["err"] is not None
                        if n in second and v["err"]:
                            # what was found with unknown results of the recursive calls stands
                            res[i]["stuck"] = True
                        else:
                            res[i] = v
                    if len(comps[n]) > 1 and n not in second and not all(clean(res[i]) for i in comps[n]):
                        second.add(n)
                        running[n] = [pool.apply_async(_mod, ((i, secs / 2, frozenset(opaque), i in ids),)) for i in sorted(comps[n])]
                        continue
                    del running[n]
                    done.add(n)
                    if all(clean(res[i]) for i in comps[n]):
                        opaque |= {i for i in comps[n] if res[i]["steps"] > (CHEAP if owned(P.F[i]["locals"][0]) else 20 * CHEAP) or i in opts["induct"]}
            time.sleep(0.01)
    return G, res, opaque


def roots_of(P, types, extra=()):
    """public functions and trait methods (not derived, not formatting) of the given types"""
    jobs = {}
    for r in P.D["roots"]:
        p, s, ti = r["path"], r.get("impl_self") or "", r.get("trait_item") or ""
        if not r["reach"] or any(x in p for x in SKIP) or any(x in ti for x in SKIP):
            continue
        hit = any(s.split("<")[0] == t for t in types) or (not s and any(p.startswith((t + "::", "<" + t + " as", "<" + t + "<")) for t in types)) or p in extra
        if hit and "blocks" in P.F[r["inst"]]:
            jobs.setdefault(r["inst"], ("%s%s" % (p, " for " + s if s else ""), r["inst"]))
    return sorted(jobs.values())


RULE = (
    "Abstract interpretation of the MIR of every listed root, all arguments and all private fields unknown: each panicking MIR construct "
    "(assert terminators: overflow, bounds, division; unwrap/expect/explicit panics; string, slice and collection indexing; standard-library preconditions) "
    "reached on a feasible abstract path is an obligation; it is discharged when the abstract state excludes the failing outcome."
)


def total(P, rep, types, must=(), extra=(), setup=None, drop=(), secs=700):
    rep.rule = RULE
    jobs = [j for j in roots_of(P, types, extra) if not any(d in j[0] for d in drop)]
    names = {n for n, _ in jobs}
    for m in must:
        if not any(m in n for n in names):
            raise an.Anchor("no public function " + m)
    rep.extra["roots"] = sorted(names)
    run_roots(P, rep, jobs, {"setup": setup}, secs)
    rep.assumptions += ["every reference argument is a valid Rust value; release or debug profile alike: arithmetic overflow counts as a failure"]


def modular_total(P, rep, types, must=(), extra=(), drop=(), only=(), inv=(), secs=200, budget=600):
    """as `total`, for functions too large to analyse through every call: see modular()"""
    import time
    import inv as INV

    t0 = time.time()
    rep.rule = RULE + (
        " Functions of the crate that are shown unable to fail for arbitrary arguments, and are expensive, are unknown results at their calls; "
        "recursive functions are analysed for arbitrary arguments and are unknown results where they call themselves."
    )
    jobs = [j for j in roots_of(P, types, extra) if not any(d in j[0] for d in drop)]
    if only:
        jobs = [j for j in jobs if any(o in j[0] for o in only)]
    names = {n for n, _ in jobs}
    for m in must:
        if not any(m in n for n in names):
            raise an.Anchor("no public function " + m)
    invs = {}
    for t in inv:
        x, fns = INV.infer(P, t, coarse=True)
        rep.analysed.update(fns)
        if x is not None:
            invs[P.T[P.adt(t)]["path"]] = x
            rep.extra.setdefault("type_invariants", []).append(t)
    rep.extra["roots"] = sorted(names)
    opts = {"cfg": {"inv": invs}}
    G, res, opaque = modular(P, jobs, opts, secs)
    rep.extra["summarised"] = sorted(P.F[i]["path"] for i in opaque)
    rep.extra["recursive"] = sorted(P.F[i]["path"] for i in opts["induct"])
    ids = {i: n for n, i in jobs}
    # alarms under unknown results: once more, analysing through every call
    again = [i for i in ids if not res[i]["stuck"] and res[i]["used"] and (res[i]["alarms"] or res[i]["undec"])]
    left = budget - (time.time() - t0)
    left = min(left, 200)
    if again and left > 20:
        with Pool(min(8, len(again))) as pool:
            for i, r in pool.imap_unordered(_mod, [(i, left, frozenset(), True) for i in again], chunksize=1):
                if not r["err"]:
                    res[i] = r

    def pending(i, seen):
        """alarms of the callees of a function whose own analysis did not finish"""
        if i in seen or i not in res or i in opaque:
            return {}
        seen.add(i)
        if not res[i]["err"]:
            return res[i]["alarms"]
        out = dict(res[i]["alarms"])
        for j in G.get(i, ()):
            out.update(pending(j, seen))
        return out

    fed = set()
    for i in sorted(res, key=lambda i: (i not in ids, i)):
        r = res[i]
        root = i in ids
        if not root and i not in opaque and not (i in opts["induct"] and not r["err"]):
            continue  # analysed through its callers
        rep.analysed.update(r["fns"])
        if root:
            rep.notes.update(r["notes"])
        al = pending(i, set()) if root else r["alarms"]
        for (fn, line, kind, what), ok in r["sites"]:
            if ok:
                rep.ok("%s|%s|%s" % (fn, kind, what))
        for (fn, kind, what), a in al.items():
            rep.fail("%s|%s|%s" % (fn, kind, what), "%s:%s: %s (%s) may fail; reached through %s" % (a["file"], a["line"], kind, what, " -> ".join(a["chain"][:12])))
        for fn, kind, what in r["undec"]:
            rep.undec("%s|%s|%s" % (fn, kind, what), "reached only through code without an abstract model")
        if r["err"]:
            rep.undec("root|" + P.F[i]["path"], r["err"])
        else:
            rep.ok("root|" + ids.get(i, P.F[i]["path"]))
    rep.assumptions += ["every reference argument is a valid Rust value; arithmetic overflow counts as a failure; a counter that starts at a constant and only grows by bounded steps does not reach 2^63"]
