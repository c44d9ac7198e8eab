"""Value numbering over MIR: what a function returns, as a term over its inputs.

A small evaluator for functions that pass values on: calls are inlined, the
functions a property is about stay uninterpreted, branches split the state and
leave equalities behind (congruence closure over Herbrand terms).  A loop
forgets what it may assign; code without a model gives an unknown value, which
never supports a violation."""

import re


class TooMany(Exception):
    pass


TRUE, FALSE = ("k", "b", True), ("k", "b", False)


def K(kind, v):
    return ("k", kind, v)


EMPTY = K("s", "")
ZERO = K("i", 0)


def app(name, *args):
    return ("app", name, tuple(args))


def eq(a, b):
    return ("eq",) + tuple(sorted((a, b), key=repr))


def neg(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    return t[1] if t[0] == "not" else ("not", t)


def kids(t):
    k = t[0]
    if k == "agg":
        return t[2]
    if k == "f":
        return (t[1],)
    if k == "app":
        return t[2]
    if k == "eq":
        return t[1:]
    if k in ("not", "disc"):
        return (t[1],)
    return ()


def rebuild(t, ks):
    k = t[0]
    if k == "agg":
        return ("agg", t[1], tuple(ks))
    if k == "f":
        return ("f", ks[0], t[2], t[3])
    if k == "app":
        return ("app", t[1], tuple(ks))
    if k == "eq":
        return eq(ks[0], ks[1])
    if k == "not":
        return neg(ks[0])
    if k == "disc":
        return ("disc", ks[0])
    return t


def size(t):
    return 1 + sum(size(x) for x in kids(t))


# Functions returning their (first) argument, as far as its content goes.
IDENT = re.compile(
    r"""^(
    .*\sas\sstd::clone::Clone>::clone | std::clone::impls.*::clone
    | .*\sas\sstd::ops::Deref(Mut)?>::deref(_mut)? | .*\sas\sstd::borrow::Borrow(<.*>)?>::borrow | .*\sas\sstd::convert::AsRef<.*>>::as_ref
    | .*\sas\sstd::borrow::ToOwned>::to_owned | .*to_owned | std::string::String::as_str | std::string::String::as_bytes | core::str::<impl\sstr>::as_bytes
    | .*<impl\sstd::convert::AsRef<.*>\sfor\s.*>::as_ref | core::str::<impl\sstr>::as_str
    | <str\sas\sstd::string::(Spec)?ToString>::(spec_)?to_string | <std::string::String\sas\sstd::string::(Spec)?ToString>::(spec_)?to_string | .*SpecToString>::spec_to_string
    | <std::string::String\sas\sstd::convert::From<&(mut\s)?str>>::from | <std::string::String\sas\sstd::convert::From<&std::string::String>>::from
    | core::str::<impl\sstr>::chars | core::str::<impl\sstr>::bytes | std::vec::Vec::<T,\sA>::as_slice | std::vec::Vec::<T>::as_slice | std::string::String::into_boxed_str
    | .*\sas\sstd::iter::IntoIterator>::into_iter | core::slice::<impl\s\[T\]>::iter | std::collections::(BTree|Hash)Set::<T(,\s[AS])*>::iter | std::collections::BTreeMap::<.*>::iter
    | std::iter::Iterator::(cloned|copied|by_ref|fuse) | core::slice::<impl\s\[T\]>::to_vec | std::slice::<impl\s\[T\]>::to_vec | std::slice::<impl\s\[T\]>::into_vec
    | std::string::String::into_string | std::str::<impl\sstr>::into_string | std::hint::black_box | std::borrow::Cow::<.*>::into_owned
    )$""",
    re.X,
)
# Pure functions that are known to differ from one another and from the identity.
KNOWN = re.compile(
    r"""(^|::|>)(trim(_\w+)?|to_(lower|upper)case|to_ascii_(lower|upper)case|len|is_empty|starts_with|ends_with|contains|eq_ignore_ascii_case|rev|
    intersection|union|difference|symmetric_difference|join|concat|first|last|pop|next|get|split|strip_prefix|strip_suffix|replace|take|skip|
    truncate|push|push_str|insert|insert_str|extend|append|clear|retain|sort|sort_unstable|dedup|reverse|make_ascii_(lower|upper)case|(integer_)?(min|max)|clamp|pop_first|pop_last|map|filter|collect|rest|unwrap_or|
    (saturating|wrapping)_(add|sub|mul)|Add|Sub|Mul|Div|Rem|Lt|Le|Gt|Ge|BitAnd|BitOr|BitXor|AddUnchecked|SubUnchecked|to|set)$""",
    re.X,
)


# Conversions the uninterpreted functions may apply themselves: their absence or presence proves nothing.
SOFT = re.compile(r"^(trim(_\w+)?|to_(lower|upper)case|to_ascii_(lower|upper)case|vec::sort.*|vec::dedup|(str|vec)::make_ascii.*)$")


class St:
    __slots__ = ("env", "rep", "neq", "facts", "bad", "own")

    def __init__(self):
        self.env, self.rep, self.neq, self.facts, self.bad = {}, {}, [], [], False

    def copy(self):
        s = St()
        s.env, s.rep, s.neq, s.facts, s.bad = dict(self.env), dict(self.rep), list(self.neq), list(self.facts), self.bad
        return s

    # ------------------------------------------------------------ equalities
    def norm(self, t, depth=0):
        if depth > 60:
            return t
        ks = kids(t)
        if ks:
            n = tuple(self.norm(x, depth + 1) for x in ks)
            if n != ks:
                t = rebuild(t, n)
        t = self.simp(t)
        r = self.rep.get(t)
        if r is not None:
            return r if r[0] == "k" else self.norm(r, depth + 1)
        return t

    def simp(self, t):
        k = t[0]
        if k == "f" and t[1][0] == "agg":
            tag = t[1][1]
            if (tag[0] != "adt" or t[2] is None or t[2] == tag[2]) and t[3] < len(t[1][2]):
                return t[1][2][t[3]]
        elif k == "disc" and t[1][0] == "agg" and t[1][1][0] == "adt":
            return K("i", t[1][1][2])
        elif k == "agg":
            # a structure rebuilt from the fields of one value is that value
            fs = t[2]
            if fs and t[1][0] in ("adt", "tuple") and fs[0][0] == "f":
                b = fs[0][1]
                v = t[1][2] if t[1][0] == "adt" else None
                if all(x[0] == "f" and x[1] == b and x[3] == i and (x[2] or 0) == (v or 0) for i, x in enumerate(fs)):
                    d = ("disc", b)
                    if t[1][0] == "tuple" or t[1][3] == "Struct" or self.rep.get(d) == K("i", v):
                        return b
        elif k == "eq":
            a, b = t[1], t[2]
            if a == b:
                return TRUE
            if a[0] == "k" and b[0] == "k":
                return FALSE
            if a[0] == "agg" and b[0] == "agg" and a[1][0] == b[1][0] == "adt":
                if a[1][2] != b[1][2]:
                    return FALSE
                fs = [self.simp(eq(x, y)) for x, y in zip(a[2], b[2])]
                if all(x == TRUE for x in fs):
                    return TRUE
                if any(x == FALSE for x in fs):
                    return FALSE
                fs = [x for x in fs if x != TRUE]
                if len(fs) == 1:
                    return fs[0]
            for x, y in ((a, b), (b, a)):
                if x == TRUE and y[0] in ("eq", "not", "app"):
                    return y
                if x == FALSE and y[0] in ("eq", "not", "app"):
                    return neg(y)
                # an ordering is compared with Equal
                if x[0] == "app" and x[1] == "cmp":
                    if y == K("i", 0) or (y[0] == "agg" and y[1][0] == "adt" and y[1][2] == 1):
                        return self.simp(eq(*x[2]))
                if x[0] == "disc" and x[1][0] == "app" and x[1][1] == "cmp" and y[0] == "k":
                    if y[2] == 0:
                        return self.simp(eq(*x[1][2]))
                # nothing left of a choice, no element chosen
                if y == ZERO and x[0] == "app" and x[1] == "len" and x[2][0][0] == "app" and x[2][0][1] == "filter":
                    c, p = x[2][0][2]
                    e = app("elem", c)
                    if p[0] == "eq" and e in p[1:]:
                        return self.simp(neg(self.simp(app("contains", c, p[2] if p[1] == e else p[1]))))
                if x[0] == "disc" and x[1][0] == "app" and x[1][1] == "next" and y[0] == "k":
                    t = self.simp(eq(app("len", x[1][2][0]), ZERO))
                    return t if y[2] == 0 else neg(t)
                if x[0] == "app" and x[1] == "Sub" and x[2][1][0] == "k" and y[0] == "k":
                    return self.simp(eq(x[2][0], K("i", x[2][1][2] + y[2])))
                if x[0] == "app" and x[1] == "str::len" and y == ZERO:
                    return self.simp(eq(x[2][0], EMPTY))
            for p, q in self.neq:
                p, q = self.flat(p), self.flat(q)
                if (p, q) == (a, b) or (p, q) == (b, a):
                    return FALSE
        elif k == "not":
            return neg(t[1])
        elif k == "app":
            n, a = t[1], t[2]
            if n == "str::len" and a[0][0] == "k" and a[0][1] == "s":
                return K("i", len(a[0][2].encode()))
            if n == "len" and a[0][0] == "app" and a[0][1] in ("sets", "nil"):
                return K("i", len(a[0][2]))
            if n == "len" and a[0][0] == "app" and a[0][1] == "collect:std::vec::Vec<char>" and len(a[0][2]) == 1:
                return self.simp(app("len", a[0][2][0]))
            if n == "len" and a[0][0] == "app" and a[0][1] == "rest":
                return self.simp(app("Sub", app("len", a[0][2][0]), K("i", 1)))
            if n in ("intersection", "union"):
                a = tuple(sorted(set(a), key=repr))
                return a[0] if len(a) == 1 else ("app", n, a)
            if n in ("BitAnd", "BitOr", "BitXor") and all(x in (TRUE, FALSE) for x in a):
                x, y = a[0][2], a[1][2]
                return K("b", {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[n])
            if n in ("BitAnd", "BitOr"):
                u, z = (TRUE, FALSE) if n == "BitAnd" else (FALSE, TRUE)
                if z in a:
                    return z
                if u in a:
                    return a[0] if a[1] == u else a[1]
            if n in ("Lt", "Le", "Gt", "Ge", "Add", "Sub", "Mul") and all(x[0] == "k" and x[1] == "i" for x in a):
                x, y = a[0][2], a[1][2]
                r = {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Add": x + y, "Sub": x - y, "Mul": x * y}[n]
                return K("b", r) if isinstance(r, bool) else K("i", r)
            # a length against one
            if n == "Gt" and a[1] == ZERO:
                return neg(self.simp(eq(a[0], ZERO)))
            if n == "Lt" and a[0] == ZERO:
                return neg(self.simp(eq(a[1], ZERO)))
            if n == "Ge" and a[1] == K("i", 1):
                return neg(self.simp(eq(a[0], ZERO)))
            if n == "contains":
                # containers with the same elements
                c = a[0]
                while True:
                    if c[0] == "app" and c[1].startswith("collect:") and len(c[2]) == 1:
                        c = c[2][0]
                    elif c[0] == "f" and c[2:] == (0, 0) and c[1][0] == "app" and c[1][1] == "array_of":
                        c = c[1][2][0]
                    else:
                        break
                if c != a[0]:
                    return app("contains", c, *a[1:])
            if n == "Lt" and a[1] == K("i", 1):
                return self.simp(eq(a[0], ZERO))
            if n == "Le" and a[1] == ZERO:
                return self.simp(eq(a[0], ZERO))
        return t

    def flat(self, t):
        r = self.rep.get(t)
        return r if r is not None else t

    def union(self, a, b):
        work = [(a, b)]
        for _ in range(400):
            if not work:
                return
            a, b = work.pop()
            a, b = self.norm(a), self.norm(b)
            if a == b:
                continue
            if a[0] == "k" and b[0] == "k":
                self.bad = True
                return
            if a[0] == "agg" and b[0] == "agg":
                if a[1][0] == "adt" and b[1][0] == "adt" and a[1][2] != b[1][2]:
                    self.bad = True
                    return
                work += list(zip(a[2], b[2]))
                continue
            # the representative: constants, then constructed values, then the smaller term
            def rank(t):
                return (0 if t[0] == "k" else 1 if t[0] == "agg" else 2, size(t), repr(t))
            if rank(b) < rank(a):
                a, b = b, a
            if a[0] == "agg" and self.inside(b, a):
                a, b = b, a  # x = Some(x.0): keep x
                if b[0] == "agg":
                    self.rep[b] = a
                    continue
            self.rep[b] = a
            # congruences this makes visible
            for x, y in list(self.rep.items()):
                ks = kids(x)
                if ks:
                    z = rebuild(x, tuple(self.norm(c) for c in ks))
                    z = self.simp(z)
                    if z != x:
                        if z[0] == "not" and y in (TRUE, FALSE):
                            work.append((z[1], neg(y)))
                        elif z[0] == "eq" and y == TRUE:
                            work.append((z[1], z[2]))
                        elif self.norm(z) != self.norm(y):
                            work.append((z, y))
        for p, q in self.neq:
            if self.norm(p) == self.norm(q):
                self.bad = True

    def inside(self, x, t):
        return x == t or any(self.inside(x, k) for k in kids(t))

    def check(self):
        for p, q in self.neq:
            if self.norm(p) == self.norm(q):
                self.bad = True

    def assume(self, t, val=True):
        """t (a boolean term) has this value"""
        t = self.norm(t)
        self.facts.append(t)
        if t in (TRUE, FALSE):
            if t[2] != val:
                self.bad = True
            return not self.bad
        if t[0] == "not":
            return self.assume(t[1], not val)
        if t[0] == "eq":
            if val:
                self.union(t[1], t[2])
            else:
                self.neq.append((t[1], t[2]))
                # a boolean different from one is the other
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if x in (TRUE, FALSE):
                        self.union(y, neg(x))
            self.check()
            return not self.bad
        if t[0] == "app" and t[1] in ("BitAnd", "BitOr") and val == (t[1] == "BitAnd"):
            return all([self.assume(x, val) for x in t[2]])
        self.union(t, K("b", val))
        self.check()
        return not self.bad


class Gvn:
    def __init__(self, P, opaque, limit=3000):
        """opaque(path, decl) -> name of the uninterpreted function, or None"""
        self.P, self.F, self.T = P, P.F, P.T
        self.opaque = opaque
        self.n = 0
        self.steps = 0
        self.limit = limit
        self.unknown = set()
        self.analysed = set()
        self.loops = {}
        self.frames = {}
        self.lost = False
        self.lenient = True  # whether the uninterpreted functions may clean up their texts themselves
        self.softs = SOFT
        self.soft = lambda t: False  # terms about which nothing is claimed

    def unk(self, why=""):
        self.n += 1
        if why:
            self.unknown.add(why)
        return ("unk", self.n)

    # ------------------------------------------------------------- types
    def strip(self, ty):
        while self.T[ty]["k"] == "ref":
            ty = self.T[ty]["elem"]
        return ty

    def structure(self, t, ty, variant=0):
        """an opaque value of a known type, by its fields"""
        T = self.T[self.strip(ty)]
        if T["k"] == "adt" and T["variants"]:
            fs = T["variants"][variant]["fields"]
            v = None if T["akind"] == "Struct" else variant
            return ("agg", ("adt", self.strip(ty), variant, T["akind"]), tuple(("f", t, v, i) for i in range(len(fs))))
        if T["k"] == "tuple":
            return ("agg", ("tuple",), tuple(("f", t, None, i) for i in range(len(T["elems"]))))
        return None

    # ------------------------------------------------------------- places
    def get(self, st, fr, place):
        if isinstance(place, int):
            return st.env.get((fr, place)) or self.unk()
        v = st.env.get((fr, place[0])) or self.unk()
        return self.project(st, v, self.indexed(st, fr, place[1]))

    def indexed(self, st, fr, projs):
        """element projections by the value of the index"""
        if not any(p[0] in "IC" for p in projs):
            return projs
        out = []
        for p in projs:
            if p[0] == "I":
                p = ("K", self.load(st, st.env.get((fr, p[1])) or self.unk()))
            elif p[0] == "C" and not p[3]:
                p = ("K", K("i", p[1]))
            out.append(tuple(p))
        return tuple(out)

    def project(self, st, v, projs):
        var = None
        for p in projs:
            v = self.load(st, v) if p[0] == "D" or v[0] == "mref" else v
            if p[0] == "D":
                var = None
            elif p[0] == "V":
                var = p[1]
            elif p[0] == "F":
                v = st.norm(v) if v[0] not in ("agg",) else v
                if v[0] == "agg" and p[1] < len(v[2]):
                    v = v[2][p[1]]
                elif v[0] in ("unk", "mref"):
                    v = self.unk()
                else:
                    v = ("f", v, var, p[1])
                var = None
            elif p[0] == "K" and v[0] not in ("unk", "mref"):
                v, i = st.norm(v), st.norm(p[1])
                if v[0] == "app" and v[1] == "array" and i[0] == "k" and 0 <= i[2] < len(v[2]):
                    v = v[2][i[2]]
                else:
                    v = app("at", v, i)
                var = None
            else:
                v = self.unk("projection " + str(p[0]))
        return v

    def load(self, st, v):
        n = 0
        while v[0] == "mref" and n < 10:
            b = st.env.get(v[1]) or self.unk()
            v = self.project(st, b, v[2])
            n += 1
        return v

    def put(self, st, fr, place, v, ty):
        if isinstance(place, int):
            st.env[(fr, place)] = v
            return
        self.store(st, (fr, place[0]), place[1], v, ty)

    def store(self, st, loc, projs, v, ty):
        base = st.env.get(loc) or self.unk()
        if ty is None and loc[0] in self.frames:
            ty = self.frames[loc[0]]["locals"][loc[1]]
        # a dereference moves to the place pointed at
        for i, p in enumerate(projs):
            if p[0] == "D":
                b = self.project(st, base, projs[:i]) if i else base
                if b[0] == "mref":
                    return self.store(st, b[1], tuple(b[2]) + tuple(projs[i + 1:]), v, None)
                if b[0] == "agg" or b[0] == "k":
                    pass
                # through a pointer that is not followed: nothing is known any more
                self.unknown.add("write through a reference")
                self.lost = True
                return
        st.env[loc] = self.updated(st, base, list(projs), v, ty)

    def updated(self, st, base, projs, v, ty):
        while projs and projs[0][0] == "V":
            projs = projs[1:]
        if not projs:
            return v
        p = projs[0]
        if p[0] != "F":
            return self.unk("write to an element")
        if base[0] != "agg":
            s = self.structure(base, ty) if ty is not None else None
            if s is None:
                return self.unk("write to a field of an unknown value")
            base = s
        fs = list(base[2])
        if p[1] >= len(fs):
            return self.unk()
        fs[p[1]] = self.updated(st, fs[p[1]], projs[1:], v, p[2] if len(p) > 2 else None)
        return ("agg", base[1], tuple(fs))

    def ptype(self, f, place):
        if isinstance(place, int):
            return f["locals"][place]
        ty = f["locals"][place[0]]
        for p in place[1]:
            if p[0] == "D":
                t = self.T[ty]
                ty = t.get("elem", ty)
            elif p[0] == "F":
                ty = p[2]
        return ty

    # ------------------------------------------------------------ operands
    def const(self, k, ty):
        t = self.T[ty]
        if "b" in k:
            return K("b", k["b"])
        if "c" in k:
            return K("c", k["c"])
        if "i" in k:
            return K("i", k["i"])
        if "s" in k:
            return K("s", k["s"])
        if "r" in k:
            x = k["r"]
            return self.const(x, t.get("elem", ty))
        if "a" in k:
            return app("array", *[self.const(x, k["et"]) for x in k["a"]])
        if "v" in k:
            if t["k"] == "adt":
                fts = [f[1] for f in t["variants"][k["v"]]["fields"]] if t["variants"] else []
                if t["path"].endswith("string::String"):
                    return EMPTY
                return ("agg", ("adt", ty, k["v"], t["akind"]), tuple(self.const(x, ft) for x, ft in zip(k["f"], fts)))
            if t["k"] == "tuple":
                return ("agg", ("tuple",), tuple(self.const(x, ft) for x, ft in zip(k["f"], t["elems"])))
        if "z" in k:
            if t["k"] == "fndef":
                return ("agg", ("fn", ty), ())
            if t["k"] == "closure":
                return ("agg", ("clo", ty), ())
            if t["k"] == "adt":
                return ("agg", ("adt", ty, 0, t["akind"]), ())
            return ("agg", ("tuple",), ())
        return app("const:" + repr(sorted(k.items()))[:200])

    def opd(self, st, fr, o):
        if "k" in o:
            return self.const(o["k"], o["t"])
        return self.get(st, fr, o.get("mv", o.get("cp")))

    def rvalue(self, st, f, fr, r):
        k = r[0]
        if k == "use":
            return self.opd(st, fr, r[1])
        if k in ("ref", "addr"):
            place = r[2] if k == "ref" else r[1]
            mut = r[1] if k == "ref" else r[2] == "Mut"
            loc, projs = (fr, place), ()
            if not isinstance(place, int):
                loc, projs = (fr, place[0]), self.indexed(st, fr, tuple(tuple(p) for p in place[1]))
            if mut:
                # a reborrow points where the reference does
                v = st.env.get(loc)
                while projs and projs[0][0] == "D" and v is not None and v[0] == "mref":
                    loc, projs = v[1], tuple(v[2]) + projs[1:]
                    v = st.env.get(loc)
                for i, p in enumerate(projs):
                    if p[0] == "D":
                        b = self.project(st, st.env.get(loc) or self.unk(), projs[:i])
                        if b[0] == "mref":
                            loc, projs = b[1], tuple(b[2]) + projs[i + 1:]
                        else:
                            return self.unk()
                        break
                if any(p[0] not in ("F", "V") for p in projs):
                    return self.unk()
                return ("mref", loc, projs)
            v = self.get(st, fr, place)
            return self.load(st, v)
        if k == "agg":
            ops = tuple(self.opd(st, fr, o) for o in r[2])
            kk = r[1][0]
            if kk == "tuple":
                return ("agg", ("tuple",), ops)
            if kk == "adt":
                return ("agg", ("adt", r[1][1], r[1][2], self.T[r[1][1]]["akind"]), ops)
            if kk == "closure":
                return ("agg", ("clo", r[1][1]), ops)
            if kk == "array":
                return app("array", *ops)
            return ops[0] if ops else self.unk()
        if k == "discr":
            v = self.load(st, self.get(st, fr, r[1]))
            t = self.T[self.strip(self.ptype(f, r[1]))]
            v = st.norm(v)
            if v[0] == "agg" and v[1][0] == "adt":
                vs = self.T[v[1][1]]["variants"]
                return K("i", vs[v[1][2]]["discr"])
            st.env[("dty", v)] = self.strip(self.ptype(f, r[1]))
            return ("disc", v)
        if k in ("bin", "cbin"):
            a, b = self.load(st, self.opd(st, fr, r[2])), self.load(st, self.opd(st, fr, r[3]))
            op = r[1].replace("Unchecked", "").replace("WithOverflow", "")
            if op == "Eq":
                v = st.simp(eq(a, b))
            elif op == "Ne":
                v = neg(st.simp(eq(a, b)))
            else:
                if op in ("Gt", "Ge", "Le") and False:
                    pass
                v = st.simp(app(op, a, b))
            if k == "cbin":
                return ("agg", ("tuple",), (v, self.unk()))
            return v
        if k == "un":
            v = self.load(st, self.opd(st, fr, r[2]))
            return neg(v) if r[1] == "Not" and (v[0] in ("eq", "not") or v in (TRUE, FALSE) or True) else app(r[1], v)
        if k == "cast":
            v = self.opd(st, fr, r[2])
            if r[1].startswith(("PointerCoercion", "Transmute", "PtrToPtr")) or "Unsize" in r[1]:
                return v
            return st.simp(app("cast:%s:%d" % (r[1], r[3]), self.load(st, v)))
        return self.unk("rvalue " + k)

    # ------------------------------------------------------------- bodies
    def nest(self, f):
        """[(header, blocks)] of the loops, inner ones too"""
        if f["id"] in self.loops:
            return self.loops[f["id"]]
        bl = f["blocks"]

        def succ(i):
            t = bl[i]["t"]
            if t[0] == "goto":
                return [t[1]]
            if t[0] == "switch":
                return [x[1] for x in t[2]] + [t[3]]
            if t[0] == "call":
                return [t[4]] if t[4] is not None else []
            if t[0] == "assert":
                return [t[5]]
            if t[0] == "drop":
                return [t[2]]
            return []

        out = []

        def sccs(nodes):
            idx, low, stack, on, res = {}, {}, [], set(), []

            def go(v):
                idx[v] = low[v] = len(idx)
                stack.append(v)
                on.add(v)
                for w in succ(v):
                    if w not in nodes:
                        continue
                    if w not in idx:
                        go(w)
                        low[v] = min(low[v], low[w])
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    res.append(c)

            for v in sorted(nodes):
                if v not in idx:
                    go(v)
            return res

        def rec(nodes):
            for c in sccs(nodes):
                if len(c) == 1 and next(iter(c)) not in succ(next(iter(c))):
                    continue
                ext = {w for v in range(len(bl)) if v not in c for w in succ(v) if w in c}
                heads = ext or {min(c)}
                for h in heads:
                    out.append((h, frozenset(c)))
                rec(c - heads)

        rec(set(range(len(bl))))
        self.loops[f["id"]] = out
        return out

    def forget_loop(self, st, f, fr, blocks):
        ks = set()
        for b in blocks:
            bb = f["blocks"][b]
            for s in bb["s"]:
                if s[0] == "=":
                    ks.add(s[1] if isinstance(s[1], int) else s[1][0])
                    r = s[2]
                    if r[0] == "ref" and r[1] or r[0] == "addr":
                        p = r[2] if r[0] == "ref" else r[1]
                        ks.add(p if isinstance(p, int) else p[0])
            t = bb["t"]
            if t[0] == "call":
                ks.add(t[3] if isinstance(t[3], int) else t[3][0])
        # whatever a reference in the frame may be used to change
        for (a, b), v in list(st.env.items()):
            if a == fr:
                self.smash(st, v)
        for k in ks:
            st.env[(fr, k)] = self.unk("loop in " + f["path"])

    def smash(self, st, v, depth=0):
        if depth > 8:
            return
        if v[0] == "mref":
            old = self.load(st, v)
            self.smash(st, old, depth + 1)
            self.store(st, v[1], v[2], self.unk(), None)
        else:
            for x in kids(v):
                self.smash(st, x, depth + 1)

    def body(self, f, st, args, depth=0):
        """[(state, returned value)]"""
        if depth > 14:
            return [(st, self.unk("depth"))]
        self.analysed.add(f["id"])
        self.n += 1
        fr = self.n
        self.frames[fr] = f
        for i, a in enumerate(args):
            st.env[(fr, i + 1)] = a
        loops = self.nest(f)
        out, work = [], [(st, 0, None)]
        while work:
            st, b, prev = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                raise TooMany(f["path"])
            dead = False
            for h, bs in loops:
                if h == b:
                    if prev in bs:
                        dead = True
                    else:
                        self.forget_loop(st, f, fr, bs)
            if dead:
                continue
            bb = f["blocks"][b]
            for s in bb["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, f, fr, s[2])
                    self.put(st, fr, s[1], v, f["locals"][s[1] if isinstance(s[1], int) else s[1][0]])
            t = bb["t"]
            k = t[0]
            if k == "goto":
                work.append((st, t[1], b))
            elif k == "drop":
                work.append((st, t[2], b))
            elif k == "assert":
                work.append((st, t[5], b))
            elif k == "ret":
                v = st.env.get((fr, 0), ("agg", ("tuple",), ()))
                # frames above keep nothing of this one, references out of it excepted
                out.append((st, v))
            elif k == "switch":
                v = st.norm(self.load(st, self.opd(st, fr, t[1])))
                isb = v in (TRUE, FALSE) or self.is_bool(f, t[1])
                if v[0] == "k":
                    c = int(v[2]) if v[1] != "s" else None
                    tg = next((x[1] for x in t[2] if x[0] == c), t[3])
                    work.append((st, tg, b))
                    continue
                rest = []
                for c, tg in t[2]:
                    s2 = st.copy()
                    if self.branch(s2, v, c, isb):
                        work.append((s2, tg, b))
                    rest.append(c)
                s2 = st.copy()
                ok = True
                if isb:
                    ok = len(rest) < 2 and s2.assume(v, rest != [1])
                else:
                    ty = st.env.get(("dty", v[1])) if v[0] == "disc" else None
                    left = None
                    if ty is not None and self.T[ty]["k"] == "adt":
                        left = [x["discr"] for x in self.T[ty]["variants"] if x["discr"] not in rest]
                    if left is not None and len(left) == 1:
                        ok = self.branch(s2, v, left[0], False)
                    elif left == []:
                        ok = False
                    else:
                        for c in rest:
                            ok = ok and s2.assume(eq(v, K("i", c)), False)
                if ok and f["blocks"][t[3]]["t"][0] != "unreachable":
                    work.append((s2, t[3], b))
            elif k == "call":
                args2 = [self.opd(st, fr, o) for o in t[2]]
                for s2, v in self.call(st, f, t[1], args2, depth, self.ptype(f, t[3])):
                    if t[4] is None or s2.bad:
                        continue
                    self.put(s2, fr, t[3], v, f["locals"][t[3] if isinstance(t[3], int) else t[3][0]])
                    work.append((s2, t[4], b))
        return out

    def is_bool(self, f, o):
        if "k" in o:
            return self.T[o["t"]]["k"] == "bool"
        return self.T[self.ptype(f, o.get("mv", o.get("cp")))]["k"] == "bool"

    def branch(self, st, v, c, isb):
        if isb:
            return st.assume(v, bool(c))
        if v[0] == "disc":
            ty = st.env.get(("dty", v[1]))
            if not st.assume(eq(v, K("i", c))):
                return False
            if ty is not None and self.T[ty]["k"] == "adt":
                for i, x in enumerate(self.T[ty]["variants"]):
                    if x["discr"] == c:
                        s = self.structure(v[1], ty, i)
                        st.rep[("disc", v[1])] = K("i", c)
                        if s is not None and not s[2]:
                            st.union(v[1], s)
                        elif s is not None:
                            st.rep[("disc", v[1])] = K("i", c)
                            self.shape(st, v[1], s)
            return not st.bad
        return st.assume(eq(v, K("i", c)))

    def shape(self, st, t, s):
        pass

    # -------------------------------------------------------------- calls
    def call(self, st, f, callee, args, depth, dty):
        inst = callee.get("inst")
        g = self.F.get(inst) if inst is not None else None
        decl = callee["decl"]
        path = g["path"] if g else decl
        ld = [self.load(st, a) for a in args]
        if decl in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            tup = ld[1] if len(ld) > 1 else None
            if tup is not None and tup[0] == "agg" and tup[1][0] == "tuple":
                return self.apply(st, ld[0], list(tup[2]), depth, args[0])
            return [(st, self.unk("indirect call"))]
        name = self.opaque(path, decl, g)
        if name:
            return [(st, app(name, *[st.norm(x) for x in ld]))]
        r = self.model(st, path, decl, args, ld, depth, dty)
        if r is not None:
            return r
        if g is not None and "blocks" in g and not g.get("shim") and g["kind"] != "virtual":
            return self.body(g, st, args, depth + 1)
        return self.other(st, path, args, ld)

    def other(self, st, path, args, ld):
        """code that is not analysed"""
        if any(self.has_ref(a) for a in args):
            for a in args:
                self.smash(st, a)
            return [(st, self.unk(path))]
        if any(self.has_clo(a) for a in ld):
            return [(st, self.unk(path))]
        last = re.sub(r"<.*?>$", "", path).split("::")[-1]
        return [(st, app(last if KNOWN.search(path) and not self.local(path) else "?" + path, *ld))]

    def has_ref(self, v):
        return v[0] == "mref" or any(self.has_ref(x) for x in kids(v))

    def has_clo(self, v):
        return (v[0] == "agg" and v[1][0] in ("clo", "fn")) or any(self.has_clo(x) for x in kids(v))

    def apply(self, st, clo, args, depth, ref=None):
        clo = self.load(st, clo)
        if clo[0] == "agg" and clo[1][0] == "clo":
            b = self.F.get(self.T[clo[1][1]].get("body"))
            if b is not None and "blocks" in b:
                return self.body(b, st, [ref if ref is not None and ref[0] == "mref" else clo] + args, depth + 1)
        if clo[0] == "agg" and clo[1][0] == "fn":
            return self.call(st, None, self.T[clo[1][1]]["callee"], args, depth + 1, None)
        for a in args:
            self.smash(st, a)
        return [(st, self.unk("unknown closure"))]

    # ------------------------------------------------------------- models
    def model(self, st, path, decl, args, ld, depth, dty):
        if IDENT.match(path) or IDENT.match(decl):
            if args[0][0] == "mref":
                t = self.T[dty] if dty is not None else {"k": "?"}
                if t["k"] == "ref" and t["mut"]:
                    return [(st, args[0])]
                if "Mut" in t.get("s", "?") or t["k"] == "?":
                    # its elements may be changed through the result
                    self.smash(st, args[0])
                    return [(st, self.unk(path))]
            return [(st, ld[0])]
        last = re.sub(r"<.*?>$", "", path).split("::")[-1]
        d = decl.split("::")[-1] if decl.startswith("std::cmp::") else ""
        if decl in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne") and not self.local(path):
            t = st.simp(eq(st.norm(ld[0]), st.norm(ld[1])))
            return [(st, t if decl.endswith("eq") else neg(t))]
        if decl in ("std::cmp::PartialEq::ne",) and len(ld) == 2:
            t = st.simp(eq(st.norm(ld[0]), st.norm(ld[1])))
            return [(st, neg(t))]
        if decl == "std::cmp::Ord::cmp" and not self.local(path):
            return [(st, app("cmp", ld[0], ld[1]))]
        if path in ("std::iter::Iterator::eq", "std::iter::Iterator::ne"):
            t = st.simp(eq(ld[0], ld[1]))
            return [(st, t if last == "eq" else neg(t))]
        if re.match(r"^(std::string::String::is_empty|core::str::<impl str>::is_empty)$", path):
            return [(st, st.simp(eq(ld[0], EMPTY)))]
        if re.match(r"^(std::string::String::len|core::str::<impl str>::len)$", path):
            return [(st, st.simp(app("str::len", ld[0])))]
        if re.search(r"(Set|Vec|Map|\[T\]>)(::<.*>)?::is_empty$", path):
            return [(st, st.simp(eq(app("len", ld[0]), ZERO)))]
        if re.search(r"(Set|Vec|Map|\[T\]>)(::<.*>)?::len$", path) or path == "std::iter::Iterator::count" or re.search(r"::count$", path):
            return [(st, st.simp(app("len", ld[0])))]
        if re.match(r"^(std::string::String::(new|with_capacity)|<std::string::String as std::default::Default>::default)$", path):
            return [(st, EMPTY)]
        if re.match(r"^(std::string::String::from|<std::string::String as std::convert::From<.*>>::from)$", path):
            return [(st, ld[0])]
        if re.match(r"^std::collections::BTreeSet::<T(, A)?>::(new|new_in)$|^<std::collections::BTreeSet<T> as std::default::Default>::default$", path):
            return [(st, app("nil"))]
        if re.search(r"::(first)$", path) and ("[T]" in path or "Set" in path) or (last == "next" and len(ld) == 1):
            cur = st.norm(ld[0])
            v = app("next", cur)
            if last == "next":
                if args[0][0] != "mref":
                    return [(st, self.unk("next"))]
                self.store(st, args[0][1], args[0][2], app("rest", cur), None)
            return [(st, v)]
        if decl == "std::iter::Iterator::collect" or decl == "std::iter::FromIterator::from_iter":
            return [(st, ld[0] if not self.has_ref(args[0]) else self.unk("collect"))] if self.keeps(ld[0], dty) else [(st, st.simp(app("collect:%s" % self.T[dty]["s"], ld[0])) if dty is not None else self.unk("collect"))]
        if decl == "std::iter::Iterator::map":
            e = app("elem", ld[0])
            r = self.apply(st.copy(), ld[1], [e], depth)
            if len(r) == 1:
                return [(st, ld[0] if r[0][1] == e else app("map", ld[0], r[0][1]))]
            return [(st, self.unk("map"))]
        if decl == "std::iter::Iterator::filter":
            e = app("elem", ld[0])
            r = self.apply(st.copy(), ld[1], [e], depth)
            if len(r) == 1:
                c = r[0][1]
                if c[0] == "app" and c[1] == "contains" and c[2][1] == e:
                    return [(st, st.simp(app("intersection", ld[0], c[2][0])))]
                return [(st, app("filter", ld[0], c))]
            return [(st, self.unk("filter"))]
        if len(ld) == 1 and path in ("core::str::<impl str>::len", "std::string::String::len"):
            return [(st, st.simp(app("str::len", ld[0])))]
        if re.search(r"TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from$", path):
            return [(st, app("array_of", ld[0]))]
        if decl in ("std::iter::Iterator::any", "std::iter::Iterator::all") and len(ld) == 2:
            e = app("elem", ld[0])
            r = self.apply(st.copy(), ld[1], [e], depth)
            if len(r) == 1:
                c = r[0][1] if last == "any" else st.simp(neg(r[0][1]))
                t = None
                if c[0] == "eq" and e in (c[1], c[2]):
                    t = app("contains", ld[0], c[2] if c[1] == e else c[1])
                elif self.definite(c):
                    t = app("exists", ld[0], c)
                if t is not None:
                    return [(st, t if last == "any" else neg(t))]
        if len(ld) == 2 and re.match(r"^core::slice::<impl \[T\]>::contains$|^std::slice::<impl \[T\]>::contains$", path):
            return [(st, app("contains", ld[0], ld[1]))]
        if len(ld) == 2 and ld[1] == ZERO and re.search(r"(::get|::remove|::swap_remove|::index)$", path) and ("[T]" in path or "Vec" in path or "slice" in path):
            v = app("next", ld[0])
            if last != "get":
                v = ("f", v, 1, 0)
                if last != "index":
                    if args[0][0] != "mref":
                        return None
                    self.store(st, args[0][1], args[0][2], self.unk("removal"), None)
            return [(st, v)]
        m = re.search(r"Set(?:::<.*>)?::(intersection|union|difference|symmetric_difference)$", path)
        if m:
            return [(st, st.simp(app(m.group(1), ld[0], ld[1])))]
        m = re.search(r"Set<.*> as std::ops::(BitAnd|BitOr|Sub|BitXor)<.*>>::\w+$", path)
        if m:
            return [(st, st.simp(app({"BitAnd": "intersection", "BitOr": "union", "Sub": "difference", "BitXor": "symmetric_difference"}[m.group(1)], ld[0], ld[1])))]
        if last in ("extend", "append") and "BTreeSet" in path and args[0][0] == "mref":
            self.store(st, args[0][1], args[0][2], st.simp(app("union", ld[0], ld[1])), None)
            if args[1][0] == "mref":
                self.store(st, args[1][1], args[1][2], app("nil"), None)
            return [(st, ("agg", ("tuple",), ()))]
        if last == "retain" and "BTreeSet" in path and args[0][0] == "mref":
            e = app("elem", ld[0])
            r = self.apply(st.copy(), ld[1], [e], depth)
            v = self.unk("retain")
            if len(r) == 1 and r[0][1][0] == "app" and r[0][1][1] == "contains" and r[0][1][2][1] == e:
                v = st.simp(app("intersection", ld[0], r[0][1][2][0]))
            self.store(st, args[0][1], args[0][2], v, None)
            return [(st, ("agg", ("tuple",), ()))]
        if path == "std::mem::swap" and args[0][0] == args[1][0] == "mref":
            self.store(st, args[0][1], args[0][2], ld[1], None)
            self.store(st, args[1][1], args[1][2], ld[0], None)
            return [(st, ("agg", ("tuple",), ()))]
        if path in ("std::mem::take", "std::mem::replace") and args[0][0] == "mref":
            self.store(st, args[0][1], args[0][2], ld[1] if len(ld) > 1 else self.unk("take"), None)
            return [(st, ld[0])]
        # std functions that change their first argument in a known way
        if args and args[0][0] == "mref" and not self.local(path) and KNOWN.search("::" + last) and not any(self.has_ref(a) or self.has_clo(a) for a in ld):
            n = "str::" + last if "string::String" in path or "str>" in path else "vec::" + last
            self.store(st, args[0][1], args[0][2], app(n, *ld), None)
            return [(st, app("result::" + n, *ld))]
        return None

    def keeps(self, v, dty):
        """collecting keeps the elements as they are: a set into a set, a text into a text"""
        if dty is None:
            return False
        s = self.T[dty]["s"]
        if v[0] == "app" and v[1] in ("intersection", "union", "difference", "nil"):
            return "BTreeSet" in s
        if v[0] in ("in", "f", "app", "k"):
            return "BTreeSet" in s or "String" == s.split("::")[-1]
        return False

    def local(self, path):
        g = self.by_path().get(path)
        return bool(g)

    def by_path(self):
        if not hasattr(self, "_bp"):
            self._bp = {f["path"] for f in self.P.D["fns"] if f["local"]}
            self._bp = {p: True for p in self._bp}
        return self._bp

    # ------------------------------------------------------------ verdicts
    def definite(self, t):
        if t[0] == "unk" or self.soft(t):
            return False
        if t[0] == "app" and (t[1] == "rest" or t[1].startswith(("?", "!", "const:")) or self.lenient and self.softs.search(t[1])):
            return False
        return all(self.definite(x) for x in kids(t))


def show(t, names=()):
    k = t[0]
    if k == "in":
        return str(t[1])
    if k == "k":
        return repr(t[2])
    if k == "app":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(x) for x in t[2]))
    if k == "eq":
        return "%s == %s" % (show(t[1]), show(t[2]))
    if k == "not":
        return "!(%s)" % show(t[1])
    if k == "f":
        return "%s.%s%d" % (show(t[1]), "" if t[2] is None else "v%d." % t[2], t[3])
    if k == "disc":
        return "variant(%s)" % show(t[1])
    if k == "agg":
        return "%s{%s}" % ("#%s" % t[1][2] if t[1][0] == "adt" else t[1][0], ", ".join(show(x) for x in t[2]))
    return "?"
