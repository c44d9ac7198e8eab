"""Statement / block / call semantics of the abstract interpreter."""
import heapq

from .core import Engine, State, Limit, UN, UNIT, TRUE, FALSE, Z0, I, SMAX, CAP

MAXSTEP = 4_000_000


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


class FnInfo:
    def __init__(self, f):
        self.f = f
        B = f["blocks"]
        self.n = len(B)
        self.succ = [succs(b["t"]) for b in B]
        self.order()
        self.liveness()

    def order(self):
        # weak topological order (Bourdoncle), iterative over nested SCCs
        idx = {}
        heads = set()
        nest = {}
        out = []

        def scc(nodes, start_order):
            # Tarjan, iterative
            index, low, onst, st, res = {}, {}, set(), [], []
            c = [0]
            for root in start_order:
                if root in index:
                    continue
                work = [(root, iter([s for s in self.succ[root] if s in nodes]))]
                index[root] = low[root] = c[0]
                c[0] += 1
                st.append(root)
                onst.add(root)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in index:
                            index[w] = low[w] = c[0]
                            c[0] += 1
                            st.append(w)
                            onst.add(w)
                            work.append((w, iter([s for s in self.succ[w] if s in nodes])))
                            adv = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        res.append((v, comp))
            res.reverse()
            return res

        def visit(nodes, start):
            for root, comp in scc(nodes, start):
                if len(comp) == 1 and root not in self.succ[root]:
                    out.append(root)
                    continue
                heads.add(root)
                nest[root] = set(comp) - {root}
                out.append(root)
                rest = set(comp)
                rest.discard(root)
                if rest:
                    st = [s for s in self.succ[root] if s in rest]
                    st += [x for x in comp if x in rest and x not in st]
                    visit(rest, st)

        reach = set()
        w = [0]
        while w:
            b = w.pop()
            if b in reach:
                continue
            reach.add(b)
            w.extend(self.succ[b])
        visit(reach, [0])
        self.idx = {b: i for i, b in enumerate(out)}
        self.heads = heads
        self.inner = {h: [x for x in c if x in heads] for h, c in nest.items()}
        self.comp = {h: c | {h} for h, c in nest.items()}

    def liveness(self):
        B = self.f["blocks"]
        use, deff = [], []

        def uses_place(p, u, d, write):
            if isinstance(p, int):
                if write:
                    d.add(p)
                elif p not in d:
                    u.add(p)
                return
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "I" and e[1] not in d:
                    u.add(e[1])

        def uses_op(o, u, d):
            if "cp" in o:
                uses_place(o["cp"], u, d, False)
            elif "mv" in o:
                uses_place(o["mv"], u, d, False)

        def uses_rv(r, u, d):
            k = r[0]
            if k in ("ref",):
                uses_place(r[2], u, d, False)
            elif k in ("discr", "len", "addr"):
                uses_place(r[1], u, d, False)
            elif k == "use":
                uses_op(r[1], u, d)
            elif k in ("bin", "cbin"):
                uses_op(r[2], u, d)
                uses_op(r[3], u, d)
            elif k == "un":
                uses_op(r[2], u, d)
            elif k == "cast":
                uses_op(r[2], u, d)
            elif k == "agg":
                for o in r[2]:
                    uses_op(o, u, d)
            elif k == "repeat":
                uses_op(r[1], u, d)

        for b in B:
            u, d = set(), set()
            for s in b["s"]:
                if s[0] == "=":
                    uses_rv(s[2], u, d)
                    uses_place(s[1], u, d, True)
                elif s[0] == "setd":
                    uses_place(s[1], u, d, False)
            t = b["t"]
            if t[0] == "call":
                if "op" in t[1]:
                    uses_op(t[1]["op"], u, d)
                for o in t[2]:
                    uses_op(o, u, d)
                if not isinstance(t[3], int):
                    uses_place(t[3], u, d, False)
                else:
                    d.add(t[3])
            elif t[0] == "switch":
                uses_op(t[1], u, d)
            elif t[0] == "assert":
                uses_op(t[1], u, d)
                for o in t[4]:
                    uses_op(o, u, d)
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
            use.append(u)
            deff.append(d)
        self.live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(self.n - 1, -1, -1):
                o = set()
                for s in self.succ[b]:
                    o |= self.live[s]
                n = use[b] | (o - deff[b])
                if n != self.live[b]:
                    self.live[b] = n
                    ch = True


class Interp(Engine):
    def __init__(self, dump, atoms):
        super().__init__(dump, atoms)
        self.fi = {}
        self.kcache = {}

    def info(self, f):
        r = self.fi.get(f["id"])
        if r is None:
            r = self.fi[f["id"]] = FnInfo(f)
        return r

    # ------------------------------------------------------------ reporting
    def site(self):
        for f, line in reversed(self.stack):
            if f["local"]:
                return f, line
        return (self.stack[0] if self.stack else ({"path": "?", "file": "?", "local": False}, 0))

    def oblig(self, st, ok, kind, what):
        f, line = self.site()
        key = (f["path"], kind, what)
        r = self.sites.setdefault((f["path"], line, kind, what), True)
        if not ok and not st.z.bot and "imp" in st.flags:
            self.undecided.setdefault(key, (f["path"], line, kind, what))
        elif not ok and not st.z.bot:
            self.sites[(f["path"], line, kind, what)] = False
            if key not in self.alarms:
                chain = [g["path"] for g, _ in self.stack if g["local"]]
                self.alarms[key] = {"fn": f["path"], "file": f.get("file"), "line": line, "kind": kind, "what": what, "chain": chain, "mode": dict(self.cfg.get("mode", {}))}

    def note(self, what):
        f, line = self.site()
        self.notes.setdefault(what, (f["path"], line))

    # ------------------------------------------------------------ constants
    def constval(self, st, k, ty):
        t = self.T[ty]
        if "b" in k:
            return ("b", k["b"])
        if "c" in k:
            return ("c", -(k["c"] + 1))
        if "i" in k:
            n = k["i"]
            if abs(n) >= 1 << 57:
                # beyond every length and counter: only the magnitude is kept
                return self.newint(st, 1 << 57, None) if n > 0 else self.newint(st, None, -(1 << 57))
            return I(n)
        if "s" in k:
            return ("sh", self.conststr(st, k["s"]))
        if "r" in k:
            it = t.get("elem")
            if it is None:
                it = ty
            x = k["r"]
            if "a" in x:
                return ("sh", self.constval(st, x, x["et"] if False else it))
            return ("sh", self.constval(st, x, it))
        if "a" in k:
            et = k["et"]
            vals = tuple(self.constval(st, x, et) for x in k["a"])
            return ("seq", I(len(vals)), vals, None)
        if "v" in k:
            if t["k"] == "adt":
                fts = [f[1] for f in t["variants"][k["v"]]["fields"]] if t["variants"] else []
            elif t["k"] == "tuple":
                fts = t["elems"]
            else:
                fts = [ty] * len(k["f"])
            fs = tuple(self.constval(st, x, ft) for x, ft in zip(k["f"], fts))
            if t["k"] == "adt" and t["akind"] == "Enum":
                return ("en", ((k["v"], fs),))
            if t["k"] == "adt" and self.is_string_ty(t):
                return self.conststr(st, "")
            if t["k"] == "adt" and t["path"].endswith("vec::Vec"):
                return ("seq", Z0, (), None)
            return ("agg", fs)
        if "z" in k:
            if t["k"] == "fndef":
                return ("fn", ty)
            if t["k"] == "closure":
                return ("clo", ty, ())
            return UNIT
        return ("top", ty)

    def operand(self, st, fr, o):
        if "cp" in o:
            return self.readplace(st, fr, o["cp"])
        if "mv" in o:
            return self.readplace(st, fr, o["mv"])
        if "k" in o:
            return self.constval(st, o["k"], o["t"])
        if "rc" in o:
            return FALSE
        return UN

    def optype(self, f, o):
        if "cp" in o or "mv" in o:
            return self.placetype(f, o.get("cp", o.get("mv")))
        return o.get("t")

    def placetype(self, f, p):
        if isinstance(p, int):
            return f["locals"][p]
        ty = f["locals"][p[0]]
        for e in p[1]:
            t = self.T[ty] if ty is not None else {}
            if e[0] == "F":
                ty = e[2]
            elif e[0] == "D":
                ty = t.get("elem") if t.get("k") in ("ref", "rawptr") else (t["args"][0] if t.get("args") else None)
            elif e[0] in ("I", "C"):
                ty = t.get("elem")
        return ty

    def place(self, st, fr, p):
        """targets of a place: tuple of (root, path)"""
        if isinstance(p, int):
            return (((fr, p), ()),)
        cur = (((fr, p[0]), ()),)
        for e in p[1]:
            k = e[0]
            if k == "D":
                out = []
                for root, path in cur:
                    v = self.read(st, root, path)
                    if v[0] == "mu":
                        out.extend(v[1])
                    else:
                        out.append((root, path + (("d",),)))
                cur = tuple(dict.fromkeys(out))
            else:
                if k == "F":
                    x = ("f", e[1], e[2])
                elif k == "V":
                    x = ("v", e[1])
                elif k == "I":
                    x = ("x", st.mem.get((fr, e[1]), UN))
                elif k == "C":
                    if e[3]:
                        r0, p0 = cur[0]
                        v = self.read(st, r0, p0)
                        ln = v[1] if v[0] == "seq" else None
                        x = ("x", self.addi(st, ln, I(-e[1])) if ln is not None else self.newint(st, 0))
                    else:
                        x = ("x", I(e[1]))
                elif k == "S":
                    x = ("sub", e[1], e[2], e[3])
                else:
                    continue
                if x[0] == "sub":
                    # materialise the sub-slice in a cell
                    out = []
                    for root, path in cur:
                        v = self.read(st, root, path)
                        out.append((self.cell(st, self.subslice(st, v, x)), ()))
                    cur = tuple(out)
                else:
                    cur = tuple((r, q + (x,)) for r, q in cur)
        return cur

    def subslice(self, st, v, x):
        if v[0] != "seq":
            return UN
        _, a, b, fe = x
        if v[2] is not None:
            el = v[2][a : len(v[2]) - b] if fe else v[2][a:b]
            return ("seq", I(len(el)), el, None)
        ln = self.addi(st, v[1], I(-a - b)) if fe else I(b - a)
        return ("seq", ln, None, v[3])

    def readplace(self, st, fr, p):
        if isinstance(p, int):
            return self.read(st, (fr, p), ())
        t = self.place(st, fr, p)
        if len(t) == 1:
            return self.read(st, t[0][0], t[0][1])
        return self.rd(st, ("mu", t))

    def writeplace(self, st, fr, p, v):
        if isinstance(p, int):
            st.mem[(fr, p)] = v
            return
        t = self.place(st, fr, p)
        if len(t) == 1:
            self.write(st, t[0][0], t[0][1], v)
        else:
            self.wr(st, ("mu", t), v)

    # ------------------------------------------------------------ booleans
    def split_bool(self, st, v):
        """[(state, bool)]"""
        if v[0] == "b":
            return [(st, v[1])]
        if v[0] == "bz":
            e = ("i", v[1], 0)
            c = self.const(st, e)
            if c is not None:
                return [(st, c == 1)]
            s2 = st.copy()
            self.le(st, e, Z0, 0)
            self.le(s2, Z0, e, -1)
            return [(st, False), (s2, True)]
        s2 = st.copy()
        return [(st, False), (s2, True)]

    def cmp_int(self, st, op, a, b):
        """fork on a comparison of two ints: [(state, bool)]"""
        if op == "Gt":
            return self.cmp_int(st, "Lt", b, a)
        if op == "Ge":
            return self.cmp_int(st, "Le", b, a)
        if op == "Ne":
            return [(s, not r) for s, r in self.cmp_int(st, "Eq", a, b)]
        u, l = self.ub(st, a, b), self.lb(st, a, b)
        if op in ("Lt", "Le"):
            k = -1 if op == "Lt" else 0
            if u is not None and u <= k:
                return [(st, True)]
            if l is not None and l > k:
                return [(st, False)]
            s2 = st.copy()
            out = []
            if self.le(st, a, b, k) and self.ci_refine(st, a, b, op, True):
                out.append((st, True))
            if self.le(s2, b, a, -k - 1) and self.ci_refine(s2, a, b, op, False):
                out.append((s2, False))
            return out
        if u is not None and u == l == 0:
            return [(st, True)]
        if (u is not None and u < 0) or (l is not None and l > 0):
            return [(st, False)]
        s2 = st.copy()
        out = []
        if self.eqi(st, a, b) and self.ci_refine(st, a, b, "Eq", True):
            out.append((st, True))
        ok = True
        if u == 0:
            ok = self.le(s2, a, b, -1)
        if l == 0:
            ok = ok and self.le(s2, b, a, -1)
        if ok and self.ci_refine(s2, a, b, "Eq", False):
            out.append((s2, False))
        return out

    def ci_refine(self, st, a, b, op, res):
        """propagate a comparison on a code point variable to the character"""
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[1] in st.ci and y[1] == 0:
                n = y[2] - x[2]
                A = self.A
                if op == "Eq":
                    bits = A.c(n) if 0 <= n < 0x110000 and not 0xD800 <= n < 0xE000 else 0
                    full = bits if A.single(bits) is not None else 0
                elif (op == "Lt") != False and op in ("Lt", "Le"):
                    if not flip:
                        hi = n - 1 if op == "Lt" else n
                        bits, full = (A.rng(0, hi), A.rng_in(0, hi)) if hi >= 0 else (0, 0)
                    else:
                        lo = n + 1 if op == "Lt" else n
                        bits, full = A.rng(max(lo, 0), 0x10FFFF), A.rng_in(max(lo, 0), 0x10FFFF)
                else:
                    continue
                c = st.ci[x[1]]
                if not self.setcs(st, c, bits if res else A.ALL & ~full):
                    st.z.bot = True
                    return False
        return True

    def char_in(self, st, c, bits, what=None):
        """fork on c in bits (bits must be a union of atoms): [(state, bool)]"""
        cur = self.cset(st, c)
        tag = self.ctag(st, c)
        if tag and what is not None:
            self.raw_test(st, c, bits, what)
        if cur & ~bits == 0:
            return [(st, True)]
        if cur & bits == 0:
            return [(st, False)]
        s2 = st.copy()
        self.setcs(st, c, bits)
        self.setcs(s2, c, self.A.ALL & ~bits)
        return [(st, True), (s2, False)]

    def raw_test(self, st, c, bits, what):
        h = self.hooks.get("raw_test")
        if h:
            h(self, st, self.cset(st, c), bits, what)

    def char_eq(self, st, a, b, what="comparison"):
        if a[1] == b[1]:
            return [(st, True)]
        A = self.A
        sa, sb = self.cset(st, a), self.cset(st, b)
        ka, kb = A.single(sa), A.single(sb)
        if kb is None and ka is not None:
            a, b, sa, sb, ka, kb = b, a, sb, sa, kb, ka
        if sa & sb == 0:
            if kb is not None and self.ctag(st, a):
                self.raw_test(st, a, sb, what)
            return [(st, False)]
        if kb is not None:
            return self.char_in(st, a, sb, what)
        h = self.hooks.get("raw_cmp")
        if h and (self.ctag(st, a) or self.ctag(st, b)):
            h(self, st, sa, sb, what)
        s2 = st.copy()
        x = sa & sb
        self.setcs(st, a, x)
        self.setcs(st, b, x)
        return [(st, True), (s2, False)]

    def char_cmp(self, st, op, a, b):
        A = self.A
        kb = A.single(self.cset(st, b))
        if kb is None:
            ka = A.single(self.cset(st, a))
            if ka is None:
                s2 = st.copy()
                return [(st, True), (s2, False)]
            return self.char_cmp(st, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
        if op == "Lt":
            bits = A.rng(0, kb - 1) if kb else 0
        elif op == "Le":
            bits = A.rng(0, kb)
        elif op == "Gt":
            bits = A.rng(kb + 1, 0x10FFFF)
        else:
            bits = A.rng(kb, 0x10FFFF)
        # atoms straddling the bound: keep in both branches
        inner = {"Lt": lambda: A.rng_in(0, kb - 1) if kb else 0, "Le": lambda: A.rng_in(0, kb), "Gt": lambda: A.rng_in(kb + 1, 0x10FFFF), "Ge": lambda: A.rng_in(kb, 0x10FFFF)}[op]()
        if self.ctag(st, a):
            self.raw_test(st, a, bits, "comparison")
        cur = self.cset(st, a)
        out = []
        if cur & bits:
            s1 = st.copy()
            self.setcs(s1, a, bits)
            out.append((s1, True))
        if cur & ~inner:
            s2 = st.copy()
            self.setcs(s2, a, A.ALL & ~inner)
            out.append((s2, False))
        return out

    # ------------------------------------------------------------ rvalues
    def as_int(self, st, v):
        if v[0] == "i":
            return v
        if v[0] == "bz":
            return ("i", v[1], 0)
        if v[0] == "b":
            return I(1 if v[1] else 0)
        return None

    def rvalue(self, st, fr, f, r):
        """[(state, value)]"""
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, fr, r[1]))]
        if k == "ref":
            t = self.place(st, fr, r[2])
            if r[1]:
                return [(st, ("mu", t))]
            if len(t) == 1:
                v = self.read(st, t[0][0], t[0][1])
                if v[0] == "en" and len(v[1]) > 1 and not any(e[0] == "x" for e in t[0][1]):
                    return [(st, ("mu", t))]
                return [(st, ("sh", v))]
            return [(st, ("sh", self.rd(st, ("mu", t))))]
        if k == "addr":
            return [(st, ("mu", self.place(st, fr, r[1])))]
        if k == "discr":
            t = self.place(st, fr, r[1])
            ty = self.placetype(f, r[1])
            if len(t) > 1:
                c = self.cell(st, self.rd(st, ("mu", t)))
                t = ((c, ()),)
            root, path = t[0]
            v = self.read(st, root, path)
            if v[0] == "top":
                v = self.expand(st, v[1])
                if v[0] == "en":
                    self.write(st, root, path, v)
            if v[0] != "en":
                return [(st, self.newint(st, -128, 255))]
            tt = self.T[ty] if ty is not None else None
            if not tt or tt["k"] != "adt":
                return [(st, self.newint(st, -128, 255))]
            out = []
            n = len(v[1])
            for q, (j, fs) in enumerate(v[1]):
                s2 = st if q == n - 1 else st.copy()
                if n > 1:
                    # narrow in place (no write-through: nothing changed)
                    s2.mem[root] = self.setv(s2, s2.mem[root], path, ("en", ((j, fs),)))
                d = tt["variants"][j]["discr"]
                out.append((s2, I(int(d))))
            return out
        if k == "len":
            v = self.readplace(st, fr, r[1])
            return [(st, v[1] if v[0] == "seq" else self.newint(st, 0, SMAX))]
        if k in ("bin", "cbin"):
            return self.binop(st, fr, f, r)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if v[0] == "b":
                    return [(st, ("b", not v[1]))]
                if v[0] == "bz":
                    return [(s, ("b", not x)) for s, x in self.split_bool(st, v)]
                ty = self.optype(f, r[2])
                lo, hi = self.intrange(ty)
                return [(st, self.newint(st, lo, hi))]
            if r[1] == "Neg":
                if v[0] == "i":
                    c = self.const(st, v)
                    if c is not None:
                        return [(st, I(-c))]
                    l, u = self.lb(st, v), self.ub(st, v)
                    return [(st, self.newint(st, None if u is None else -u, None if l is None else -l))]
                return [(st, self.newint(st))]
            if r[1] == "PtrMetadata":
                x = self.rd(st, v)
                if x[0] == "seq":
                    return [(st, x[1])]
                if x[0] == "s":
                    return [(st, self.S(st, x).bl)]
                return [(st, self.newint(st, 0, SMAX))]
            return [(st, UN)]
        if k == "cast":
            return [(st, self.cast(st, r[1], self.operand(st, fr, r[2]), self.optype(f, r[2]), r[3]))]
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            kk = r[1][0]
            if kk == "array":
                return [(st, ("seq", I(len(ops)), ops, None))]
            if kk == "tuple":
                return [(st, ("agg", ops))]
            if kk == "adt":
                t = self.T[r[1][1]]
                w = self.watch.get(t.get("path"))
                if w:
                    w(self, st, t, r[1][2], ops)
                if t["akind"] == "Enum":
                    return [(st, ("en", ((r[1][2], ops),)))]
                return [(st, ("agg", ops))]
            if kk == "closure":
                return [(st, ("clo", r[1][1], ops))]
            if kk == "rawptr":
                return [(st, ops[0])]
            return [(st, UN)]
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n <= 64:
                return [(st, ("seq", I(n), (v,) * n, None))]
            return [(st, ("seq", I(n), None, self.gen(st, v)))]
        return [(st, UN)]

    def cast(self, st, kind, v, fty, tty):
        T = self.T
        t = T[tty]
        if kind.startswith("IntToInt") or kind == "IntToInt":
            lo, hi = self.intrange(tty)
            if t["k"] == "char":
                if v[0] == "c":
                    return v
                if v[0] == "i":
                    if v[1] in st.ci and v[2] == 0:
                        return st.ci[v[1]]
                    l, u = self.lb(st, v), self.ub(st, v)
                    l = 0 if l is None else max(l, 0)
                    u = 0x10FFFF if u is None else min(u, 0x10FFFF)
                    return self.newchar(st, self.A.rng(l, u))
                return self.newchar(st, self.A.ALL)
            if v[0] == "c":
                if "raw_cast" in self.hooks and self.ctag(st, v):
                    self.hooks["raw_cast"](self, st, v)
                bits = self.cset(st, v)
                s = self.A.single(bits)
                if s is not None:
                    n = s if hi is None or s <= hi else s & hi
                    return I(n)
                mn, mx = self.A.minmax(bits)
                if mn is None:
                    mn = mx = 0
                if mx > hi:
                    return self.newint(st, lo, hi)
                r = self.newint(st, mn, mx)
                st.ci[r[1]] = v
                return r
            x = self.as_int(st, v)
            if x is None:
                return self.newint(st, lo, hi)
            l, u = self.lb(st, x), self.ub(st, x)
            # values are assumed to fit 2^62 when unbounded above and 64 bit wide
            if l is not None and l >= lo and ((u is not None and u <= hi) or (u is None and hi >= (1 << 63) - 1)):
                return x
            if (u is not None and l is not None) and l == u:
                n = l & ((1 << t["bits"]) - 1)
                if t.get("signed") and n > hi:
                    n -= 1 << t["bits"]
                return I(n)
            return self.newint(st, lo, hi)
        if "Unsize" in kind or "PtrToPtr" in kind or "Transmute" in kind or "Reify" in kind or "Closure" in kind or "MutToConst" in kind or "Subtype" in kind or "BoxDeref" in kind:
            if kind.startswith("Transmute") and v[0] not in ("mu", "sh", "fn", "clo"):
                ft = T[fty] if fty is not None else {}
                if v[0] in ("seq", "s") or (v[0] == "i" and t["k"] == "int"):
                    if v[0] == "i":
                        return self.cast(st, "IntToInt", v, fty, tty)
                    return v
                if v[0] == "i" and t["k"] == "char":
                    return self.cast(st, "IntToInt", v, fty, tty)
                return ("top", tty)
            return v
        if t["k"] in ("int",):
            lo, hi = self.intrange(tty)
            return self.newint(st, lo, hi)
        return ("top", tty)

    def binop(self, st, fr, f, r):
        k, op = r[0], r[1]
        a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
        if k == "bin" and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return [(s, ("b", x)) for s, x in self.compare(st, op, a, b)]
        if op == "Cmp":
            out = []
            for s, lt in self.compare(st, "Lt", a, b):
                if lt:
                    out.append((s, ("en", ((0, ()),))))
                else:
                    for s2, e in self.compare(s, "Eq", a, b):
                        out.append((s2, ("en", ((1 if e else 2, ()),))))
            return out
        if op == "Offset":
            return [(st, UN)]
        ty = self.optype(f, r[2])
        if self.T[ty]["k"] == "bool":
            out = []
            for s, x in self.split_bool(st, a):
                for s2, y in self.split_bool(s, b):
                    z = {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}.get(op)
                    out.append((s2, ("b", z)))
            return out
        lo, hi = self.intrange(ty)
        a, b = self.as_int(st, a), self.as_int(st, b)
        if a is None or b is None or lo is None:
            v = self.newint(st, lo, hi)
            return [(st, ("agg", (v, ("bz", self.newint(st, 0, 1)[1]))) if k == "cbin" else v)]
        opn = op.replace("Unchecked", "").replace("WithOverflow", "")
        res = self.arith(st, opn, a, b, lo, hi)
        if k == "cbin":
            l, u = self.lb(st, res), self.ub(st, res)
            ok = l is not None and l >= lo and u is not None and u <= hi
            if not ok and opn == "Sub":
                ok = self.known_le(st, b, a) if lo == 0 else ok
            if not ok and opn == "Add" and hi >= CAP and l is not None and l >= lo:
                # below another value of the type
                c = self.const(st, b)
                x = a
                if c is None:
                    c, x = self.const(st, a), b
                if c is not None and c <= 64:
                    ok = self.below_other(st, x, c)
            if not ok and opn == "Sub" and lo < 0 and l is not None and l >= lo and self.lb(st, b) is not None and self.lb(st, b) >= 0:
                ok = True
            if ok:
                return [(st, ("agg", (res, FALSE)))]
            flag = ("bz", self.newint(st, 0, 1)[1])
            # beyond the assertion the result is in range
            st2 = st.copy()
            self.le(st2, Z0, res, -lo) if lo > -CAP else None
            if hi < CAP:
                self.le(st2, res, Z0, hi)
            if st2.z.bot:
                return [(st, ("agg", (self.newint(st, lo, hi), TRUE)))]
            return [(st2, ("agg", (res, flag)))]
        if opn in ("Add", "Sub", "Mul", "Shl"):
            l, u = self.lb(st, res), self.ub(st, res)
            inr = l is not None and l >= lo and (u is not None and u <= hi)
            if not inr:
                if opn == "Sub" and lo == 0 and self.known_le(st, b, a):
                    return [(st, res)]
                if "Unchecked" in op:
                    self.le(st, Z0, res, -lo) if lo > -CAP else None
                    return [(st, res)]
                return [(st, self.newint(st, lo, hi))]
        return [(st, res)]

    def below_other(self, st, x, c):
        """x + c <= some other machine integer held by a local variable"""
        seen = set()
        work = [v for r, v in st.mem.items() if r[0] != "tmp"]
        while work:
            v = work.pop()
            if v[0] == "agg":
                work.extend(v[1])
            elif v[0] == "i" and v[1] not in seen and v[1] and v[1] != x[1]:
                seen.add(v[1])
                if self.known_le(st, x, v, -c):
                    return True
        return False

    def arith(self, st, op, a, b, lo, hi):
        if op == "Add":
            return self.addi(st, a, b)
        if op == "Sub":
            return self.subi(st, a, b)
        ca, cb = self.const(st, a), self.const(st, b)
        la, ua, lb_, ub_ = self.lb(st, a), self.ub(st, a), self.lb(st, b), self.ub(st, b)
        if op == "Mul":
            if ca is not None and cb is not None:
                return I(ca * cb)
            if None not in (la, ua, lb_, ub_):
                xs = [la * lb_, la * ub_, ua * lb_, ua * ub_]
                return self.newint(st, min(xs), max(xs))
            if la is not None and lb_ is not None and la >= 0 and lb_ >= 0:
                r = self.newint(st, la * lb_, None)
                return r
            return self.newint(st)
        if op in ("Div", "Rem"):
            if ca is not None and cb:
                q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
                return I(q if op == "Div" else ca - q * cb)
            if op == "Div" and la is not None and la >= 0 and lb_ is not None and lb_ > 0:
                r = self.newint(st, 0 if ub_ is None else la // ub_, None if ua is None else ua // lb_)
                self.le(st, r, a, 0)
                return r
            if op == "Rem" and la is not None and la >= 0 and ub_ is not None and ub_ > 0:
                r = self.newint(st, 0, ub_ - 1)
                self.le(st, r, a, 0)
                return r
            return self.newint(st, lo, hi)
        if op == "BitAnd":
            if ca is not None and cb is not None:
                return I(ca & cb)
            m = [x for x in (ua, ub_) if x is not None]
            if lo == 0 or (la is not None and la >= 0):
                return self.newint(st, 0, min(m) if m else hi)
            return self.newint(st, lo, hi)
        if op in ("BitOr", "BitXor") and ca is not None and cb is not None:
            return I(ca | cb if op == "BitOr" else ca ^ cb)
        if op == "BitOr" and la is not None and la >= 0 and lb_ is not None and lb_ >= 0 and ua is not None and ub_ is not None:
            return self.newint(st, max(la, lb_), (1 << max(ua, ub_).bit_length()) - 1)
        if op == "Shl" and ca is not None and cb is not None and 0 <= cb < 128:
            return I(ca << cb)
        if op == "Shr" and cb is not None and la is not None and la >= 0:
            return self.newint(st, la >> cb, None if ua is None else ua >> cb)
        return self.newint(st, lo, hi)

    def compare(self, st, op, a, b):
        if a[0] == "c" and b[0] == "c":
            if op == "Eq":
                return self.char_eq(st, a, b)
            if op == "Ne":
                return [(s, not x) for s, x in self.char_eq(st, a, b)]
            return self.char_cmp(st, op, a, b)
        x, y = self.as_int(st, a), self.as_int(st, b)
        if x is not None and y is not None:
            return self.cmp_int(st, op, x, y)
        s2 = st.copy()
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------ bodies
    def run_body(self, f, st, args):
        """[(state, value)]"""
        if len(self.stack) > self.maxdepth:
            raise Limit("call depth")
        self.analysed.add(f["id"])
        inf = self.info(f)
        self.frames += 1
        fr = self.frames
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        self.stack.append([f, f.get("line", 0)])
        try:
            outs = self.run_blocks(f, inf, fr, st)
        finally:
            self.stack.pop()
        res = []
        for s in outs:
            v = s.mem.get((fr, 0), UN)
            if v[0] == "top":
                v = self.expand(s, v[1])
            v = self.unframe(s, v, fr)
            for r in [r for r in s.mem if r[0] == fr]:
                del s.mem[r]
            res.append((s, v))
        return res

    def unframe(self, st, v, fr):
        """references to places reached through a local of a returning frame"""
        k = v[0]
        if k == "mu":
            if any(r[0] == fr for r, _ in v[1]):
                return ("sh", self.unframe(st, self.rd(st, v), fr))
            return v
        if k == "sh":
            w = self.unframe(st, v[1], fr)
            return v if w is v[1] else ("sh", w)
        if k == "agg":
            xs = tuple(self.unframe(st, x, fr) for x in v[1])
            return v if all(a is b for a, b in zip(xs, v[1])) else ("agg", xs)
        if k == "en":
            fs = tuple((j, tuple(self.unframe(st, x, fr) for x in f)) for j, f in v[1])
            return v if fs == v[1] else ("en", fs)
        return v

    def run_blocks(self, f, inf, fr, st0, region=None):
        """region: (head, blocks): one turn of a loop, the states back at its head"""
        B = f["blocks"]
        first = region[0] if region else 0
        pend = {first: [st0]}
        heap = [(inf.idx[first], first)]
        back = []
        heads = {}
        rets = []
        lvls = {}
        entry_head = {}
        while heap:
            _, b = heapq.heappop(heap)
            states = pend.pop(b, None)
            if not states:
                continue
            live = inf.live[b]
            if len(states) > 1 or b in inf.heads:
                for s in states:
                    self.gc(s, fr, live)
            lvl = lvls.get(b, 0 if b in inf.heads else -1)
            if b in inf.heads:
                H = heads.setdefault(b, {})
                while True:
                    d = {}
                    for s in states:
                        d.setdefault(self.sig(s, fr, lvl), []).append(s)
                    if len(set(d) | set(H)) <= (48 if lvl == 0 else 24) or lvl >= 4:
                        break
                    lvl += 1
                    states = states + [h for h, _ in H.values()]
                    H.clear()
                lvls[b] = lvl
                todo = []
                for sg, g in d.items():
                    a = g[0]
                    for x in g[1:]:
                        a, _ = self.join(a, x)
                    if sg in H:
                        old, n = H[sg]
                        J, ch = self.join(old, a, 0 if n < 2 else 1 if n < 12 else 2 if n < 20 else 2.5 if n < 40 else 3)
                        if not ch:
                            continue
                        if n > 60:
                            raise Limit("loop at %s bb%d" % (f["path"], b))
                        H[sg] = (J, n + 1)
                        todo.append(J)
                    else:
                        H[sg] = (a, 0)
                        todo.append(a)
                if todo:
                    # an inner loop starts over with a fresh widening schedule
                    for h in inf.inner[b]:
                        Hi = heads.get(h)
                        if Hi:
                            for sg, (J, n) in Hi.items():
                                if n > 4:
                                    Hi[sg] = (J, 4)
                states = [s.copy() for s in todo]
            elif len(states) > 1:
                states, lvl = self.merge(states, fr, 24, lvl)
                lvls[b] = lvl
            for s in states:
                self.steps += 1
                if self.steps > MAXSTEP:
                    raise Limit("steps")
                if self.deadline is not None and self.steps % 64 == 0:
                    self.check_time()
                for tgt, s2 in self.run_block(f, fr, B[b], s):
                    if s2.z.bot:
                        continue
                    if region and (tgt == first or tgt not in region[1]):
                        if tgt == first:
                            back.append(s2)
                    elif tgt == -1:
                        rets.append(s2)
                    else:
                        if tgt not in pend:
                            pend[tgt] = []
                            heapq.heappush(heap, (inf.idx[tgt], tgt))
                        pend[tgt].append(s2)
        if region:
            return back
        if self.loops is not None and len(self.stack) == 1:
            for h, H in heads.items():
                self.loops.append((f, inf, fr, h, [(sg, j) for sg, (j, _) in H.items()]))
        if self.cfg.get("dbg_lvls") and any(lvls.values()):
            print("LVL", f["path"], {b: (v, len(heads.get(b, ()))) for b, v in lvls.items() if v})
        if len(rets) > 1:
            for s in rets:
                self.gc(s, fr, {0})
            rets, _ = self.merge(rets, fr, 24)
        return rets

    deadline = None
    loops = None  # stable states at the loop heads of the outermost function, when asked for

    def check_time(self):
        import time

        if time.time() > self.deadline:
            raise Limit("time")

    def run_block(self, f, fr, blk, st):
        """[(target | -1, state)]"""
        states = [st]
        top = self.stack[-1]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                top[1] = s[3]
                if len(states) == 1:
                    st = states[0]
                    rs = self.rvalue(st, fr, f, s[2])
                    if len(rs) == 1:
                        s2, v = rs[0]
                        if s2.z.bot:
                            return []
                        self.writeplace(s2, fr, s[1], v)
                        states[0] = s2
                        continue
                else:
                    rs = []
                    for st in states:
                        rs.extend(self.rvalue(st, fr, f, s[2]))
                nxt = []
                for s2, v in rs:
                    if s2.z.bot:
                        continue
                    self.writeplace(s2, fr, s[1], v)
                    nxt.append(s2)
                states = nxt
                if not states:
                    return []
            elif k == "dead":
                for st in states:
                    st.mem.pop((fr, s[1]), None)
            elif k == "setd":
                for st in states:
                    v = self.readplace(st, fr, s[1])
                    if v[0] == "en":
                        fs = dict(v[1]).get(s[2], ())
                        self.writeplace(st, fr, s[1], ("en", ((s[2], fs),)))
        t = blk["t"]
        k = t[0]
        out = []
        if k == "goto":
            return [(t[1], s) for s in states]
        if k == "ret":
            return [(-1, s) for s in states]
        if k == "drop":
            return [(t[2], s) for s in states]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "switch":
            for s in states:
                out.extend(self.switch(s, fr, f, t))
            return out
        if k == "assert":
            top[1] = t[6]
            for s in states:
                c = self.operand(s, fr, t[1])
                for s2, x in self.split_bool(s, c):
                    if s2.z.bot:
                        continue
                    if x == t[2]:
                        self.oblig(s2, True, t[3], self.assert_what(f, t))
                        out.append((t[5], s2))
                    else:
                        ok = t[3] == "overflow:Add" and self.counting(s2, f, fr, t[4])
                        self.oblig(s2, ok, t[3], self.assert_what(f, t))
            return out
        if k == "call":
            for s in states:
                top[1] = t[5]
                args = [self.operand(s, fr, o) for o in t[2]]
                dty = self.placetype(f, t[3])
                if "op" in t[1]:
                    fv = self.operand(s, fr, t[1]["op"])
                    rs = self.call_value(s, fv, args, dty)
                else:
                    rs = self.call(s, t[1], args, dty)
                top[1] = t[5]
                if t[4] is None:
                    continue
                for s2, v in rs:
                    if s2.z.bot:
                        continue
                    self.writeplace(s2, fr, t[3], v)
                    out.append((t[4], s2))
            return out
        return []

    def counting(self, st, f, fr, ops):
        """a 64-bit counter: a local that starts at constants and only grows by bounded amounts"""
        for x, y in (ops, ops[::-1]):
            l = x.get("cp", x.get("mv")) if isinstance(x, dict) else None
            if not isinstance(l, int) or not self.counter(f, l):
                continue
            v = self.as_int(st, self.operand(st, fr, y))
            if v is not None and self.ub(st, v) is not None and self.ub(st, v) <= SMAX and (self.lb(st, v) or 0) >= 0:
                self.notes_counter = True
                return True
        return False

    def counter(self, f, l):
        key = (f["id"], l)
        r = self.counters.get(key)
        if r is not None:
            return r
        self.counters[key] = False
        t = self.T[f["locals"][l]]
        ok = t["k"] == "int" and (self.intrange(f["locals"][l])[1] or 0) >= 2**63 - 1 and l > f["argc"]
        sums = {}
        defs = []
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if s[2][0] == "ref" and s[2][1] and s[2][2] == l or s[2][0] not in ("use", "cbin", "bin", "ref") and s[1] == l:
                    ok = False
                if s[2][0] in ("cbin", "bin") and s[2][1] == "Add" and isinstance(s[1], int) and any(isinstance(o, dict) and o.get("cp", o.get("mv")) == l for o in s[2][2:4]):
                    sums[s[1]] = sums.get(s[1], 0) + 1
                if s[1] == l:
                    defs.append(s[2])
            if b["t"][0] == "call" and b["t"][3] == l:
                ok = False
        for d in defs:
            if d[0] == "use":
                o = d[1]
                if "k" in o and "i" in o["k"]:
                    continue
                p = o.get("mv", o.get("cp"))
                if isinstance(p, list) and sums.get(p[0]) and len(p[1]) == 1 and p[1][0][:2] == ["F", 0]:
                    continue
            ok = False
        self.counters[key] = bool(ok and defs)
        return self.counters[key]

    def assert_what(self, f, t):
        return f["path"] if not f["local"] else ""

    def switch(self, st, fr, f, t):
        v = self.operand(st, fr, t[1])
        br, other = t[2], t[3]
        if v[0] == "b":
            n = 1 if v[1] else 0
            for val, tgt in br:
                if val == n:
                    return [(tgt, st)]
            return [(other, st)]
        if v[0] == "bz":
            out = []
            for s, x in self.split_bool(st, v):
                n = 1 if x else 0
                for val, tgt in br:
                    if val == n:
                        out.append((tgt, s))
                        break
                else:
                    out.append((other, s))
            return out
        if v[0] == "c":
            out = []
            cur = st
            A = self.A
            for val, tgt in br:
                rs = self.char_in(cur, v, A.c(val), "match")
                nxt = None
                for s, x in rs:
                    if x:
                        out.append((tgt, s))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            out.append((other, cur))
            return out
        x = self.as_int(st, v)
        if x is None:
            out = []
            for tgt in [b[1] for b in br] + [other]:
                out.append((tgt, st.copy()))
            return out
        ty = self.optype(f, t[1])
        lo, hi = self.intrange(ty) if ty is not None else (None, None)
        out = []
        cur = st
        for val, tgt in br:
            if lo is not None and lo < 0 and val > hi:
                val -= 1 << self.T[ty]["bits"]
            nxt = None
            for s, r in self.cmp_int(cur, "Eq", x, I(val)):
                if r:
                    out.append((tgt, s))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append((other, cur))
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, callee, args, dty):
        inst = callee.get("inst")
        decl = callee["decl"]
        f = self.F.get(inst) if inst is not None else None
        path = f["path"] if f else decl
        m = self.find_model(path, decl)
        ctx = {"f": f, "decl": decl, "path": path, "args_ty": callee.get("args", []), "dty": dty}
        if "raw_call" in self.hooks:
            o = f is not None and f["id"] in self.cfg.get("opaque", ())
            self.hooks["raw_call"](self, st, args, path, o, f is not None and f["local"])
        if m is not None:
            r = m(self, st, args, ctx)
            if r is not None:
                return r
        return self.call_inst(st, f, args, ctx)

    def call_inst(self, st, f, args, ctx):
        if f is not None and f.get("shim"):
            sh = f["shim"]
            r = self.shim(st, f, args, ctx)
            if r is not None:
                return r
        if f is not None and f["id"] in self.cfg.get("opaque", ()) and self.stack and f["id"] != self.cfg.get("root"):
            for a, t in zip(args, f["locals"][1 : f["argc"] + 1]):
                self.forget(st, a, t)
            self.opaque_used.add(f["id"])
            return [(st, self.deep_expand(st, ("top", f["locals"][0])))]
        if f is not None and f["id"] in self.cfg.get("checked", ()) and self.stack and f["id"] != self.cfg.get("root") and not any(g["id"] == f["id"] for g, _ in self.stack):
            # analysed from this call, but its result is unknown
            if not self.run_body(f, st.copy(), args):
                return []
            for a, t in zip(args, f["locals"][1 : f["argc"] + 1]):
                self.forget(st, a, t)
            self.opaque_used.add(f["id"])
            return [(st, self.deep_expand(st, ("top", f["locals"][0])))]
        if f is not None and "blocks" in f:
            if f["id"] in self.cfg.get("induct", ()) and any(g["id"] == f["id"] for g, _ in self.stack):
                # the function is analysed on its own for any argument
                for a, t in zip(args, f["locals"][1 : f["argc"] + 1]):
                    self.forget(st, a, t)
                self.opaque_used.add(f["id"])
                return [(st, self.deep_expand(st, ("top", f["locals"][0])))]
            if any(g["id"] == f["id"] for g, _ in self.stack):
                n = sum(1 for g, _ in self.stack if g["id"] == f["id"])
                if n > self.cfg.get("rec", 0):
                    self.note("recursion " + f["path"])
                    st.flags = tuple(sorted(set(st.flags) | {"imp"}))
                    return self.havoc(st, args, ctx["dty"], None)
            if f.get("spread") and len(args) >= 2:
                pass
            return self.run_body(f, st, args)
        return self.havoc(st, args, ctx["dty"], ctx["path"], f)

    def shim(self, st, f, args, ctx):
        return None

    def forget(self, st, v, ty, depth=0):
        """anything may have been written through the mutable references inside a value"""
        if depth > 8:
            return
        k, t = v[0], self.T[ty]
        if k == "mu" and t["k"] == "ref":
            if t["mut"]:
                for r, p in v[1]:
                    self.forget(st, self.read(st, r, p), t["elem"], depth + 1)
                    self.write(st, r, p, self.deep_expand(st, ("top", t["elem"])))
        elif k == "agg" and t["k"] == "tuple":
            for x, e in zip(v[1], t["elems"]):
                self.forget(st, x, e, depth + 1)
        elif k == "agg" and t["k"] == "adt" and t["akind"] == "Struct":
            for x, e in zip(v[1], t["variants"][0]["fields"]):
                self.forget(st, x, e[1], depth + 1)
        elif k == "en" and t["k"] == "adt":
            for j, fs in v[1]:
                for x, e in zip(fs, t["variants"][j]["fields"]):
                    self.forget(st, x, e[1], depth + 1)

    def havoc(self, st, args, dty, name, f=None):
        if name is not None:
            self.note("unmodelled " + name)
            st.flags = tuple(sorted(set(st.flags) | {"imp"}))
            if f is not None and f.get("tc"):
                self.oblig(st, False, "unmodelled-may-panic", name)
        seen = set()

        def hv(v, depth=0):
            if depth > 8:
                return
            if v[0] == "mu":
                for r, p in v[1]:
                    if (r, p) in seen:
                        continue
                    seen.add((r, p))
                    old = self.read(st, r, p)
                    hv(old, depth + 1)
                    self.write(st, r, p, self.smash(st, old))
            elif v[0] == "agg":
                for x in v[1]:
                    hv(x, depth + 1)
            elif v[0] == "clo":
                for x in v[2]:
                    hv(x, depth + 1)
            elif v[0] == "en":
                for _, fs in v[1]:
                    for x in fs:
                        hv(x, depth + 1)

        for a in args:
            hv(a)
        v = ("top", dty) if dty is not None else UN
        if dty is not None:
            v = self.expand(st, dty)
        return [(st, v)]

    def smash(self, st, v):
        """unknown value of the same shape"""
        k = v[0]
        if k == "i":
            return self.newint(st)
        if k in ("b", "bz"):
            return ("bz", self.newint(st, 0, 1)[1])
        if k == "c":
            return self.newchar(st, self.A.ALL)
        if k == "s":
            return self.newstr(st, self.A.ALL)
        if k == "agg":
            return ("agg", tuple(self.smash(st, x) for x in v[1]))
        if k == "seq":
            return ("seq", self.newint(st, 0, SMAX), None, ("un",))
        if k == "obj":
            return ("top", v[2]) if v[2] is not None else UN
        if k in ("fn", "clo", "mu", "sh"):
            return v
        return UN

    def call_value(self, st, fv, args, dty):
        """call a callable value with untupled arguments"""
        k = fv[0]
        if k == "sh":
            return self.call_value(st, fv[1], args, dty)
        if k == "mu":
            inner = self.rd(st, fv)
            if inner[0] == "clo":
                body = self.F.get(self.T[inner[1]].get("body"))
                return self.call_clo(st, inner, fv, args, dty)
            return self.call_value(st, inner, args, dty)
        if k == "clo":
            return self.call_clo(st, fv, None, args, dty)
        if k == "fn":
            t = self.T[fv[1]]
            return self.call(st, t["callee"], args, dty)
        return self.havoc(st, args, dty, "indirect call")

    def call_clo(self, st, clo, mu, args, dty):
        t = self.T[clo[1]]
        body = self.F.get(t.get("body"))
        if body is None or "blocks" not in body:
            return self.havoc(st, args, dty, "closure")
        kind = t.get("kind")
        st_local = body["locals"][1]
        selft = self.T[st_local]
        if selft["k"] == "ref":
            if selft["mut"]:
                if mu is None:
                    mu = ("mu", ((self.cell(st, clo), ()),))
                a0 = mu
            else:
                a0 = ("sh", clo)
        else:
            a0 = clo
        m = self.hooks.get("closure")
        return self.run_body(body, st, [a0] + list(args))

    def alias(self, p):
        """hash containers and deques behave like their ordered counterparts here"""
        for a, b in (("HashMap::<K, V, S, A>", "BTreeMap::<K, V, A>"), ("HashMap::<K, V, S>", "BTreeMap::<K, V, A>"), ("HashMap<K, V, S, A>", "BTreeMap<K, V, A>"), ("HashMap<K, V, S>", "BTreeMap<K, V, A>"), ("HashMap", "BTreeMap"), ("hash_map", "btree_map"), ("HashSet::<T, S, A>", "BTreeSet::<T, A>"), ("HashSet::<T, S>", "BTreeSet::<T, A>"), ("HashSet<T, S, A>", "BTreeSet<T, A>"), ("HashSet<T, S>", "BTreeSet<T>"), ("HashSet", "BTreeSet"), ("hash_set", "btree_set"), ("VecDeque::<T, A>::push_back", "VecDeque::<T, A>::push"), ("std::collections::VecDeque", "std::vec::Vec"), ("vec_deque::", "vec::")):
            p = p.replace(a, b)
        return p

    def find_model(self, path, decl):
        key = (path, decl)
        r = self.model_cache.get(key, 0)
        if r != 0:
            return r
        r = None
        for p, d in ((path, decl), (self.alias(path), self.alias(decl))):
            r = self.models.get(p) or self.models.get(d)
            if r is None:
                for rx, m in self.model_rx:
                    if rx.search(p) or rx.search(d):
                        r = m
                        break
            if r is not None:
                break
        self.model_cache[key] = r
        return r

    model_rx = []
