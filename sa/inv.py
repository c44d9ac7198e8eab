"""Type invariants: what every construction of a struct with private fields
guarantees about its fields, inferred from the construction sites."""
import an


def component_types(P, tid, seen=None):
    """local struct types reachable from the fields of a type"""
    seen = set() if seen is None else seen
    if tid in seen:
        return seen
    seen.add(tid)
    t = P.T[tid]
    for x in t.get("args", []) or []:
        if isinstance(x, int):
            component_types(P, x, seen)
    for k in ("elem",):
        if isinstance(t.get(k), int):
            component_types(P, t[k], seen)
    for x in t.get("elems", []) or []:
        component_types(P, x, seen)
    if t["k"] == "adt" and t.get("local"):
        for v in t["variants"]:
            for f in v["fields"]:
                component_types(P, f[1], seen)
    return seen


def place_fields(P, f, pl):
    """[(struct type id, field index)] of the projections of a place"""
    if isinstance(pl, int):
        return []
    t = f["locals"][pl[0]]
    out = []
    for e in pl[1]:
        k = e[0]
        if k == "D":
            T = P.T[t] if t is not None else None
            t = T.get("elem") if T else None
            if t is None and T and T["k"] == "adt" and T.get("args"):
                t = T["args"][0]
        elif k == "F":
            out.append((t, e[1]))
            t = e[2] if len(e) > 2 else None
        elif k in ("I", "C", "S"):
            t = P.T[t].get("elem") if t is not None else None
        elif k == "V":
            pass
    return out


def mutated_fields(P, tid):
    """indices of the struct's fields that are assigned or mutably borrowed through a projection"""
    out = set()
    for f in P.D["fns"]:
        if not f["local"] or "blocks" not in f:
            continue
        for b in f["blocks"]:
            pls = []
            for s in b["s"]:
                if s[0] == "=":
                    pls.append(s[1])
                    if s[2][0] == "ref" and s[2][1]:
                        pls.append(s[2][2])
            t = b["t"]
            if t[0] == "call":
                pls.append(t[3])
            for pl in pls:
                for st, i in place_fields(P, f, pl):
                    if st == tid:
                        out.add(i)
    return out


def infer(P, path, skip_derived=True, rounds=4, coarse=False):
    """template joined over all constructions of `path`, analysed with unknown arguments"""
    tid = P.adt(path)
    path = P.T[tid]["path"]
    fns = []
    for f in P.D["fns"]:
        if not f["local"] or "blocks" not in f:
            continue
        for b in f["blocks"]:
            for s in b["s"]:
                if has_agg(s, tid):
                    fns.append(f)
                    break
            else:
                continue
            break
    inv = None
    analysed = []
    for rnd in range(rounds):
        before = inv
        for f in fns:
            E = P.engine()
            if coarse:
                # calls of the crate's own functions give unknown results
                E.cfg["opaque"] = {g["id"] for g in P.D["fns"] if g["local"] and "{closure" not in g["path"] and g["id"] != f["id"] and not g["path"].startswith("rules_parser::")}
                E.cfg["root"] = f["id"]
            if before is not None:
                E.cfg["inv"] = {path: before}
            found = []

            def w(E_, st, t, variant, ops, found=found):
                found.append(("agg", tuple(E_.gen(st, o) for o in ops)))

            E.watch[path] = w
            derived = "std::clone::Clone" in f["path"]
            if derived and before is None:
                continue
            an.run(E, f, splits=False)
            analysed.append(f["path"])
            for t in found:
                inv = t if inv is None else E.tjoin(inv, t)
        if inv == before:
            break
    else:
        return None, analysed
    if inv is None or inv[0] != "agg":
        return None, analysed
    mut = mutated_fields(P, tid)
    fs = P.T[tid]["variants"][0]["fields"]
    inv = ("agg", tuple(("top", fs[i][1]) if i in mut else x for i, x in enumerate(inv[1])))
    return inv, analysed


def invariants(P, root):
    """{path: template} for the private struct types among the components of a public type"""
    out, fns = {}, []
    rt = P.adt(root)
    for tid in sorted(component_types(P, rt)):
        t = P.T[tid]
        if tid == rt or t["k"] != "adt" or not t.get("local") or t["akind"] != "Struct" or t.get("args"):
            continue
        i, a = infer(P, t["path"])
        fns += a
        if i is not None:
            out[t["path"]] = i
    return out, fns


def has_agg(s, tid):
    """statement builds the struct with type id tid (or any instance of the same path)"""
    if isinstance(s, list):
        if len(s) >= 2 and s[0] == "agg" and isinstance(s[1], list) and s[1] and s[1][0] == "adt" and s[1][1] == tid:
            return True
        return any(has_agg(x, tid) for x in s)
    if isinstance(s, dict):
        return any(has_agg(x, tid) for x in s.values())
    return False
