"""Abstract interpreter over the dumped MIR.

Values (immutable tuples):
  ('i',v,c)           integer  v + c   (v = 0: constant)
  ('b',bool)          known boolean;   ('bz',v) unknown boolean, zone variable in [0,1]
  ('c',id)            character; its possible code points are st.cs[id]
  ('s',id)            str / String contents; facts in st.st[id]
  ('sh',value)        shared reference (snapshot of the referent)
  ('mu',((root,path),..))  mutable reference
  ('agg',fields)      struct / tuple
  ('en',((variant,fields),..))   enum, the variants it may be
  ('seq',len,elems|None,tmpl|None)  array / slice / Vec
  ('obj',kind,ty,fields)  modelled library object
  ('fn',callee) ('clo',ty,upvars)  callables
  ('tm',template)     template held inside an object
  ('top',ty) ('un',)
Templates are state independent: leaves ('I',lo,hi) ('C',bits,tag) ('S',bits,blo,bhi,clo,chi,consts,tag) ('B',).
"""
import sys
from collections import namedtuple

import numpy as np

from . import chars as chars_mod
from .zone import Zone, close, widen, horizon, INF, CAP

sys.setrecursionlimit(20000)

SMAX = 1 << 47
SI = namedtuple("SI", "bl cl cs pre suf ex k bn tag prov")
UN = ("un",)
UNIT = ("agg", ())
Z0 = ("i", 0, 0)
TRUE = ("b", True)
FALSE = ("b", False)
RAW = 1  # tag: letter case of the input still visible
LOOSE = 2  # tag: may hold characters of the input that are to be dropped (those in Engine.loose)


def I(n):
    return ("i", 0, n)


def tm_keys(r, a, b):
    """keys a map surely has: those it has on both sides"""
    if len(a) > 2 and len(b) > 2:
        return r + (a[2] & b[2],)
    return r


class Limit(Exception):
    pass


class State:
    __slots__ = ("mem", "z", "cs", "ct", "st", "defs", "par", "ci", "cw", "sel", "at", "ev", "flags")

    def __init__(self):
        self.mem = {}
        self.z = Zone()
        self.cs = {}
        self.ct = {}
        self.st = {}
        self.defs = {}
        self.par = {}  # element cell -> parent targets
        self.ci = {}  # int var -> char id it is the code point of
        self.cw = {}  # int var -> char value it is the UTF-8 width of
        self.sel = {}  # (char, offset, elements) -> element selected by the char's code point
        self.at = {}  # (string, int var, offset) -> character starting at that byte position
        self.ev = frozenset()  # events seen on every path
        self.flags = ()

    def copy(self):
        n = State.__new__(State)
        n.mem = dict(self.mem)
        n.z = self.z.copy()
        n.cs = dict(self.cs)
        n.ct = dict(self.ct)
        n.st = dict(self.st)
        n.defs = dict(self.defs)
        n.par = dict(self.par)
        n.ci = dict(self.ci)
        n.cw = dict(self.cw)
        n.sel = self.sel
        n.at = self.at
        n.ev = self.ev
        n.flags = self.flags
        return n


class Engine:
    def __init__(self, dump, atoms):
        self.D = dump
        self.T = dump["types"]
        self.F = {f["id"]: f for f in dump["fns"]}
        self.iters = {int(k): v for k, v in dump["iters"].items()}
        self.A = atoms
        self.nid = 0
        self.stack = []  # (fn, line)
        self.frames = 0
        self.alarms = {}
        self.sites = {}
        self.notes = {}
        self.models = {}
        self.model_cache = {}
        self.lazies = {}
        self.counters = {}
        self.notes_counter = False
        self.opaque_used = set()
        self.cfg = {}
        self.steps = 0
        self.hooks = {}
        self.undecided = {}
        self.fnstat = {}
        self.maxdepth = 70
        self.record = True
        self.analysed = set()
        self.tyname = {}
        self.char_ty = next((i for i, t in enumerate(self.T) if t["k"] == "char"), None)
        self.watch = {}

    # ------------------------------------------------------------- helpers
    def fresh(self):
        self.nid += 1
        return self.nid

    def newint(self, st, lo=None, hi=None):
        v = self.fresh()
        st.z.add(v, lo, hi)
        return ("i", v, 0)

    loose = 0

    def newchar(self, st, bits, tag=0):
        if tag & LOOSE and not bits & self.loose:
            tag &= ~LOOSE
        s = self.A.single(bits)
        if s is not None and not tag:
            return ("c", -(s + 1))
        c = self.fresh()
        st.cs[c] = bits
        if tag:
            st.ct[c] = tag
        return ("c", c)

    def cset(self, st, c):
        c = c[1]
        if c < 0:
            return self.A.c(-c - 1)
        return st.cs[c]

    def ctag(self, st, c):
        if c[1] < 0:
            return 0
        t = st.ct.get(c[1], 0)
        return t & ~LOOSE if t & LOOSE and not st.cs[c[1]] & self.loose else t

    def setcs(self, st, c, bits):
        """refine; False if empty"""
        if c[1] < 0:
            return bool(self.A.c(-c[1] - 1) & bits)
        n = st.cs[c[1]] & bits
        st.cs[c[1]] = n
        return n != 0

    def newstr(self, st, bits, blo=0, bhi=SMAX, clo=0, chi=SMAX, tag=0, prov=None, pre=(), suf=(), ex=False):
        A = self.A
        if tag & LOOSE and not bits & self.loose:
            tag &= ~LOOSE
        wlo, whi = A.wminmax(bits) if bits else (1, 1)
        if bits == 0:
            blo = clo = 0
            bhi = chi = 0
        chi = min(chi, bhi // wlo)
        clo = max(clo, -(-blo // whi), len(pre), len(suf))
        blo = max(blo, clo * wlo)
        bhi = min(bhi, chi * whi)
        if ex:
            clo = chi = len(pre)
        if clo == chi:
            cl = I(clo)
        else:
            cl = self.newint(st, clo, chi)
        if wlo == whi == 1:
            bl = cl
        elif blo == bhi:
            bl = I(blo)
        else:
            bl = self.newint(st, blo, bhi)
            self.le(st, cl, bl, 0)
            if bl[1] and wlo > 1 and False:
                pass
        s = self.fresh()
        st.st[s] = SI(bl, cl, bits, pre, suf, ex, None, frozenset(), tag, prov)
        return ("s", s)

    def conststr(self, st, text):
        A = self.A
        bits = A.of(text)
        s = self.fresh()
        b = text.encode()
        ids = tuple(("c", -(ord(c) + 1)) for c in text)
        if len(text) <= 24:
            pre, suf, ex = ids, ids, True
        else:
            pre, suf, ex = ids[:6], ids[-6:], False
        st.st[s] = SI(I(len(b)), I(len(text)), bits, pre, suf, ex, text, frozenset(), 0, None)
        return ("s", s)

    # linear integers ------------------------------------------------------
    def note_at(self, st, sv, pos, c):
        """character c starts at byte position pos of the string"""
        if pos[1] == 0 or len(st.at) >= 8:
            return
        st.at = dict(st.at)
        st.at[(sv[1],) + pos[1:3]] = c

    def tighten(self, st, sv):
        """a character that differs from the last (first) one lies before (after) it"""
        i = self.S(st, sv)
        for k, c in st.at.items():
            if k[0] != sv[1]:
                continue
            p, b = ("i", k[1], k[2]), self.cset(st, c)
            if i.suf:
                e = self.cset(st, i.suf[-1])
                if b & e == 0:
                    self.le(st, p, i.bl, -(self.A.wminmax(b)[0] + self.A.wminmax(e)[0]))
            if i.pre:
                e = self.cset(st, i.pre[0])
                if b & e == 0:
                    self.le(st, I(self.A.wminmax(e)[0]), p)

    def le(self, st, a, b, c=0):
        """assume a - b <= c"""
        if a[1] == b[1]:
            ok = a[2] - b[2] <= c
            if not ok:
                st.z.bot = True
            return ok
        ok = st.z.le(a[1], b[1], c - a[2] + b[2])
        if ok and st.defs:
            self.prop(st, a[1], b[1])
        return ok

    def prop(self, st, u, w):
        """propagate a new constraint between u and w through the definitions"""
        z = st.z
        for r, d in st.defs.items():
            if r != u and r != w:
                continue
            _, p, q = d
            # r = p -/+ q (p, q linear)
            hi, lo = z.ub(r), z.lb(r)
            if d[0] == "-":
                # p - q in [lo, hi]
                k = q[2] - p[2]
                if lo is not None:
                    z.le(q[1], p[1], -lo - k)
                if hi is not None:
                    z.le(p[1], q[1], hi + k)
            else:
                k = p[2] + q[2]
                for x, y in ((p, q), (q, p)):
                    # x = r - y
                    h, l = z.ub(y[1]), z.lb(y[1])
                    if h is not None:
                        z.le(r, x[1], h + k)
                    if l is not None:
                        z.le(x[1], r, -l - k)

    def eqi(self, st, a, b, c=0):
        return self.le(st, a, b, c) and self.le(st, b, a, -c)

    def ub(self, st, a, b=Z0):
        if a[1] == b[1]:
            return a[2] - b[2]
        r = st.z.ub(a[1], b[1])
        return None if r is None else r + a[2] - b[2]

    def lb(self, st, a, b=Z0):
        if a[1] == b[1]:
            return a[2] - b[2]
        r = st.z.lb(a[1], b[1])
        return None if r is None else r + a[2] - b[2]

    def const(self, st, a):
        if a[1] == 0:
            return a[2]
        u = self.ub(st, a)
        if u is not None and u == self.lb(st, a):
            return u
        return None

    def known_le(self, st, a, b, c=0):
        u = self.ub(st, a, b)
        return u is not None and u <= c

    def apart(self, st, a, b):
        """a - b when it is a known constant"""
        if a[1] == b[1]:
            return a[2] - b[2]
        u = self.ub(st, a, b)
        return u if u is not None and self.lb(st, a, b) == u else None

    def addi(self, st, a, b):
        if a[1] == 0:
            return ("i", b[1], b[2] + a[2])
        if b[1] == 0:
            return ("i", a[1], a[2] + b[2])
        ca, cb = self.const(st, a), self.const(st, b)
        if ca is not None:
            return ("i", b[1], b[2] + ca)
        if cb is not None:
            return ("i", a[1], a[2] + cb)
        for x, y in ((a, b), (b, a)):
            d = st.defs.get(x[1])
            if d and d[0] == "-" and d[2][1] == y[1]:
                # x = p - q + k ; y = q.v + c
                return ("i", d[1][1], d[1][2] - d[2][2] + x[2] + y[2])
        if st.cw:
            for v, d in st.defs.items():
                if d[0] == "+":
                    for x, y in ((a, b), (b, a)):
                        if d[1][1] == x[1] and d[2][1] == y[1]:
                            return ("i", v, x[2] + y[2] - d[1][2] - d[2][2])
        la, ua, lb_, ub_ = self.lb(st, a), self.ub(st, a), self.lb(st, b), self.ub(st, b)
        r = self.newint(st, None if la is None or lb_ is None else la + lb_, None if ua is None or ub_ is None else ua + ub_)
        if ub_ is not None:
            self.le(st, r, a, ub_)
        if lb_ is not None:
            self.le(st, a, r, -lb_)
        if ua is not None:
            self.le(st, r, b, ua)
        if la is not None:
            self.le(st, b, r, -la)
        for dv, d in list(st.defs.items()):
            if d[0] != "-":
                continue
            for x, y in ((a, b), (b, a)):
                if d[2][1] == y[1]:
                    # dv = p - q, q = y.v + c: x <= dv + k  =>  x + y <= p - q + y + k
                    k = st.z.ub(x[1], dv)
                    if k is not None:
                        self.le(st, r, d[1], k + x[2] + y[2] - d[2][2])
        st.defs[r[1]] = ("+", a, b)
        return r

    def subi(self, st, a, b):
        if b[1] == 0:
            return ("i", a[1], a[2] - b[2])
        if a[1] == b[1]:
            return I(a[2] - b[2])
        cb = self.const(st, b)
        if cb is not None:
            return ("i", a[1], a[2] - cb)
        u, l = self.ub(st, a, b), self.lb(st, a, b)
        if u is not None and u == l:
            return I(u)
        d = st.defs.get(a[1])
        if d:
            if d[0] == "+":
                for p, q in ((d[1], d[2]), (d[2], d[1])):
                    if p[1] == b[1]:
                        return ("i", q[1], q[2] + p[2] + a[2] - b[2])
            elif d[0] == "-" and False:
                pass
        d = st.defs.get(b[1])
        if d and d[0] == "-" and d[1][1] == a[1]:
            # b = p - q + k, a = p.v + c  => a - b = q + (c - p.c) - k
            return ("i", d[2][1], d[2][2] + a[2] - d[1][2] - b[2])
        for v, d in st.defs.items():
            if d[0] == "-":
                k = self.apart(st, a, d[1])
                j = self.apart(st, b, d[2]) if k is not None else None
                if j is not None:
                    return ("i", v, k - j)
        r = self.newint(st, l, u)
        la, ua, lb_, ub_ = self.lb(st, a), self.ub(st, a), self.lb(st, b), self.ub(st, b)
        if lb_ is not None:
            self.le(st, r, a, -lb_)
        if ub_ is not None:
            self.le(st, a, r, ub_)
        st.defs[r[1]] = ("-", a, b)
        return r

    # strings ---------------------------------------------------------------
    def S(self, st, v):
        return st.st[v[1]]

    def setS(self, st, v, **kw):
        st.st[v[1]] = st.st[v[1]]._replace(**kw)

    # ----------------------------------------------------------- types
    def tname(self, ty):
        return self.T[ty]["s"]

    def tinfo(self, ty):
        return self.T[ty]

    def intrange(self, ty):
        t = self.T[ty]
        if t["k"] == "char":
            return 0, 0x10FFFF
        if t["k"] != "int":
            return None, None
        n = t["bits"]
        if t["signed"]:
            return -(1 << (n - 1)), (1 << (n - 1)) - 1
        return 0, (1 << n) - 1

    def is_string_ty(self, t):
        return t["k"] == "str" or (t["k"] == "adt" and t["path"] in ("std::string::String", "alloc::string::String"))

    def expand(self, st, ty, tag=0):
        """one level of the unknown value of a type"""
        t = self.T[ty]
        k = t["k"]
        if k == "bool":
            return ("bz", self.newint(st, 0, 1)[1])
        if k == "int":
            lo, hi = self.intrange(ty)
            return self.newint(st, lo, hi)
        if k == "char":
            return self.newchar(st, self.A.ALL, tag)
        if self.is_string_ty(t):
            return self.newstr(st, self.A.ALL, tag=tag)
        if k == "ref":
            if t["mut"]:
                r = ("cell", self.fresh())
                st.mem[r] = ("top", t["elem"])
                return ("mu", ((r, ()),))
            return ("sh", ("top", t["elem"]))
        if k == "tuple":
            return ("agg", tuple(("top", e) for e in t["elems"]))
        if k == "array":
            n = t["len"]
            if n is not None and n <= 64:
                return ("seq", I(n), tuple(("top", t["elem"]) for _ in range(n)), None)
            return ("seq", I(n) if n is not None else self.newint(st, 0, SMAX), None, ("top", t["elem"]))
        if k == "slice":
            return ("seq", self.newint(st, 0, SMAX), None, ("top", t["elem"]))
        if k == "adt":
            p = t["path"]
            if p.endswith("vec::Vec"):
                return ("seq", self.newint(st, 0, SMAX), None, ("top", t["args"][0]))
            if p.endswith("::BTreeMap"):
                return ("obj", "map", ty, (("tm", ("top", t["args"][0])), ("tm", ("top", t["args"][1])), self.newint(st, 0, SMAX)))
            if p.endswith("::BTreeSet"):
                return ("obj", "set", ty, (("tm", ("top", t["args"][0])), self.newint(st, 0, SMAX)))
            if p.endswith("boxed::Box"):
                return ("sh", ("top", t["args"][0]))
            if t["akind"] == "Struct":
                if t["local"] or p.split("::")[0] in ("std", "core", "alloc") and p in self.OPEN_STRUCTS:
                    inv = self.cfg.get("inv", {}).get(p)
                    if inv is not None:
                        return self.instantiate(st, inv)
                    fs = tuple(("top", f[1]) for f in t["variants"][0]["fields"])
                    h = self.cfg.get("expand_hook")
                    if h:
                        r = h(self, st, ty, fs)
                        if r is not None:
                            return r
                    return ("agg", fs)
                return ("top", ty)
            if t["akind"] == "Enum":
                if len(t["variants"]) > 40:
                    return ("top", ty)
                return ("en", tuple((i, tuple(("top", f[1]) for f in v["fields"])) for i, v in enumerate(t["variants"])))
        return ("top", ty)

    OPEN_STRUCTS = {
        "std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeInclusive", "std::ops::RangeToInclusive",
        "std::ops::RangeFull", "core::ops::Range", "std::iter::Peekable", "std::iter::Enumerate", "std::iter::Skip", "std::iter::Take",
    }

    def deep_expand(self, st, v, depth=10):
        """expand nested unknowns so that repeated reads agree"""
        if depth == 0:
            return v
        k = v[0]
        if k == "top":
            e = self.expand(st, v[1])
            if e[0] == "top":
                return e
            if e[0] in ("seq", "obj") and not (e[0] == "seq" and e[2] is not None):
                return e
            return self.deep_expand(st, e, depth - 1)
        if k == "sh":
            return ("sh", self.deep_expand(st, v[1], depth - 1))
        if k == "agg":
            return ("agg", tuple(self.deep_expand(st, x, depth - 1) for x in v[1]))
        if k == "en":
            return ("en", tuple((i, tuple(self.deep_expand(st, x, depth - 1) for x in f)) for i, f in v[1]))
        if k == "seq" and v[2] is not None:
            return ("seq", v[1], tuple(self.deep_expand(st, x, depth - 1) for x in v[2]), None)
        if k == "mu":
            for root, path in v[1]:
                if root[0] == "cell" and not path:
                    st.mem[root] = self.deep_expand(st, st.mem[root], depth - 1)
        return v

    # ------------------------------------------------------------- templates
    def gen(self, st, v):
        k = v[0]
        if k == "i":
            return ("I", self.lb(st, v), self.ub(st, v))
        if k == "b" or k in ("un", "top", "tm", "fn", "I", "C", "S", "B"):
            return v
        if k == "bz":
            c = self.const(st, ("i", v[1], 0))
            return ("B",) if c is None else ("b", c == 1)
        if k == "c":
            return ("C", self.cset(st, v), self.ctag(st, v))
        if k == "s":
            i = st.st[v[1]]
            return ("S", i.cs, self.lb(st, i.bl) or 0, self.ub(st, i.bl), self.lb(st, i.cl) or 0, self.ub(st, i.cl), frozenset([i.k]) if i.k is not None else None, i.tag)
        if k == "sh":
            return ("sh", self.gen(st, v[1]))
        if k == "mu":
            if len(v[1]) == 1:
                return ("sh", self.gen(st, self.read(st, v[1][0][0], v[1][0][1])))
            return ("un",)
        if k == "agg":
            return ("agg", tuple(self.gen(st, x) for x in v[1]))
        if k == "en":
            return ("en", tuple((i, tuple(self.gen(st, x) for x in f)) for i, f in v[1]))
        if k == "seq":
            if v[2] is not None:
                if len(v[2]) <= 12:
                    return ("seq", self.gen(st, v[1]), tuple(self.gen(st, x) for x in v[2]), None)
                t = None
                for x in v[2]:
                    t = self.tjoin(t, self.gen(st, x))
                return ("seq", self.gen(st, v[1]), None, t)
            return ("seq", self.gen(st, v[1]), None, v[3])
        if k == "obj":
            return ("obj", v[1], v[2], tuple(self.gen(st, x) for x in v[3]))
        if k == "clo":
            return ("clo", v[1], tuple(self.gen(st, x) for x in v[2]))
        raise Exception("gen " + repr(v))

    def instantiate(self, st, t):
        k = t[0]
        if k == "I":
            if t[1] is not None and t[1] == t[2]:
                return I(t[1])
            return self.newint(st, t[1], t[2])
        if k == "B":
            return ("bz", self.newint(st, 0, 1)[1])
        if k == "C":
            return self.newchar(st, t[1], t[2])
        if k == "S":
            if t[6] is not None and len(t[6]) == 1:
                return self.conststr(st, next(iter(t[6])))
            r = self.newstr(st, t[1], t[2], SMAX if t[3] is None else t[3], t[4], SMAX if t[5] is None else t[5], tag=t[7])
            if t[6] is not None:
                r2 = self.S(st, r)
                st.st[r[1]] = r2._replace(prov=("oneof", t[6]))
            return r
        if k == "sh":
            return ("sh", self.deep_expand(st, self.instantiate(st, t[1]), 8))
        if k == "agg":
            return ("agg", tuple(self.instantiate(st, x) for x in t[1]))
        if k == "en":
            return ("en", tuple((i, tuple(self.instantiate(st, x) for x in f)) for i, f in t[1]))
        if k == "seq":
            return ("seq", self.instantiate(st, t[1]), None if t[2] is None else tuple(self.instantiate(st, x) for x in t[2]), t[3])
        if k == "obj":
            return ("obj", t[1], t[2], tuple(x if x[0] == "tm" else self.instantiate(st, x) for x in t[3]))
        if k == "clo":
            return ("clo", t[1], tuple(self.instantiate(st, x) for x in t[2]))
        if k == "top":
            e = self.expand(st, t[1])
            return e
        return t

    def tjoin(self, a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        if a[0] == "top":
            return a
        if b[0] == "top":
            return b
        if a[0] == "un" or b[0] == "un":
            return b if a[0] == "un" else a
        if a[0] != b[0]:
            if {a[0], b[0]} <= {"b", "B"}:
                return ("B",)
            return ("un",)
        k = a[0]
        if k == "I":
            lo = None if a[1] is None or b[1] is None else min(a[1], b[1])
            hi = None if a[2] is None or b[2] is None else max(a[2], b[2])
            return ("I", lo, hi)
        if k == "b":
            return ("B",)
        if k == "C":
            return ("C", a[1] | b[1], a[2] | b[2])
        if k == "S":
            mx = lambda x, y: None if x is None or y is None else max(x, y)
            ks = None if a[6] is None or b[6] is None else a[6] | b[6]
            if ks is not None and len(ks) > 40:
                ks = None
            return ("S", a[1] | b[1], min(a[2], b[2]), mx(a[3], b[3]), min(a[4], b[4]), mx(a[5], b[5]), ks, a[7] | b[7])
        if k == "sh":
            return ("sh", self.tjoin(a[1], b[1]))
        if k == "tm":
            return tm_keys(("tm", self.tjoin(a[1], b[1])), a, b)
        if k == "agg":
            if len(a[1]) != len(b[1]):
                return ("un",)
            return ("agg", tuple(self.tjoin(x, y) for x, y in zip(a[1], b[1])))
        if k == "en":
            d = dict(a[1])
            for i, f in b[1]:
                d[i] = tuple(self.tjoin(x, y) for x, y in zip(d[i], f)) if i in d else f
            return ("en", tuple(sorted(d.items())))
        if k == "seq":
            ln = self.tjoin(a[1], b[1])
            if a[2] is not None and b[2] is not None and len(a[2]) == len(b[2]):
                return ("seq", ln, tuple(self.tjoin(x, y) for x, y in zip(a[2], b[2])), None)
            ta = self.tfold(a)
            tb = self.tfold(b)
            return ("seq", ln, None, self.tjoin(ta, tb))
        if k == "obj":
            if a[1] != b[1] or len(a[3]) != len(b[3]):
                return ("top", a[2])
            return ("obj", a[1], a[2], tuple(self.tjoin(x, y) for x, y in zip(a[3], b[3])))
        if k == "clo":
            if a[1] != b[1]:
                return ("un",)
            return ("clo", a[1], tuple(self.tjoin(x, y) for x, y in zip(a[2], b[2])))
        return ("un",)

    def tfold(self, s):
        if s[2] is None:
            return s[3]
        t = None
        for x in s[2]:
            t = self.tjoin(t, x)
        return t

    def elem_t(self, st, seq):
        """template of the elements of a sequence value (None: no element)"""
        if seq[2] is None:
            return seq[3]
        t = None
        for x in seq[2]:
            t = self.tjoin(t, self.gen(st, x))
        return t

    # ------------------------------------------------------------- memory
    def getv(self, st, v, path, i=0):
        """value at a path inside v (pure; unknown parts are expanded by read())"""
        while i < len(path):
            p = path[i]
            k = v[0]
            if p[0] == "f":
                if k == "agg":
                    v = v[1][p[1]] if p[1] < len(v[1]) else UN
                elif k == "clo":
                    v = v[2][p[1]]
                elif k == "mu":
                    pass
                elif k == "en" and len(v[1]) == 1:
                    v = v[1][0][1][p[1]]
                elif k == "un":
                    return UN
                elif k == "sh":
                    pass
                else:
                    return ("top", p[2]) if len(p) > 2 and p[2] is not None else UN
            elif p[0] == "v":
                if k == "en":
                    for j, f in v[1]:
                        if j == p[1]:
                            v = ("agg", f)
                            break
                    else:
                        return UN
                elif k == "un":
                    return UN
                else:
                    return ("vtop", v, p[1])
            elif p[0] == "d":
                if k == "sh":
                    v = v[1]
                elif k == "top":
                    return ("dtop", v)
                else:
                    return UN
            elif p[0] == "x":
                if k == "seq":
                    if v[2] is not None:
                        c = self.const(st, p[1])
                        if c is not None:
                            v = v[2][c] if 0 <= c < len(v[2]) else UN
                        else:
                            v = self.sel_elem(st, v, p[1])
                    else:
                        v = self.instantiate(st, v[3]) if v[3] is not None else UN
                else:
                    return UN
            i += 1
        return v

    def sel_elem(self, st, s, k):
        """element of an exact sequence at an unknown index; the same
        character used as index selects the same element"""
        key = None
        ch = st.ci.get(k[1])
        if ch is not None and ch[1] > 0 and all(v[0] == "c" and v[1] < 0 for v in s[2]):
            key = (ch[1], k[2], s[2])
            if key in st.sel:
                return st.sel[key]
        t = None
        lo, hi = self.lb(st, k) or 0, self.ub(st, k)
        for j, v in enumerate(s[2]):
            if j >= lo and (hi is None or j <= hi):
                t = self.tjoin(t, self.gen(st, v))
        r = self.instantiate(st, t) if t is not None else UN
        if key is not None and r[0] == "c":
            st.sel = dict(st.sel)
            st.sel[key] = r
        return r

    def setv(self, st, v, path, new, i=0):
        if i == len(path):
            return new
        p = path[i]
        k = v[0]
        if p[0] == "f":
            if k == "agg":
                fs = list(v[1])
                while len(fs) <= p[1]:
                    fs.append(UN)
                fs[p[1]] = self.setv(st, fs[p[1]], path, new, i + 1)
                return ("agg", tuple(fs))
            if k == "clo":
                fs = list(v[2])
                fs[p[1]] = self.setv(st, fs[p[1]], path, new, i + 1)
                return ("clo", v[1], tuple(fs))
            if k == "un":
                fs = [UN] * (p[1] + 1)
                fs[p[1]] = self.setv(st, UN, path, new, i + 1)
                return ("agg", tuple(fs))
            if k in ("mu", "sh"):
                return self.setv(st, v, path, new, i + 1)
            if k == "top":
                e = self.expand(st, v[1])
                if e[0] == "agg":
                    return self.setv(st, e, path, new, i)
            if k == "en" and len(v[1]) == 1:
                j, f = v[1][0]
                r = self.setv(st, ("agg", f), path, new, i)
                return ("en", ((j, r[1]),))
            return v
        if p[0] == "v":
            if k == "top":
                v = self.expand(st, v[1])
                k = v[0]
            if k == "en":
                out = []
                for j, f in v[1]:
                    if j == p[1]:
                        r = self.setv(st, ("agg", f), path, new, i + 1)
                        out.append((j, r[1]))
                    else:
                        out.append((j, f))
                return ("en", tuple(out))
            if k == "un":
                r = self.setv(st, ("agg", ()), path, new, i + 1)
                return ("en", ((p[1], r[1]),))
            return v
        if p[0] == "d":
            if k == "sh":
                return ("sh", self.setv(st, v[1], path, new, i + 1))
            if k == "top":
                e = self.expand(st, v[1])
                if e[0] == "sh":
                    return self.setv(st, e, path, new, i)
            return v
        if p[0] == "x":
            if k == "seq":
                if v[2] is not None:
                    c = self.const(st, p[1])
                    el = list(v[2])
                    if c is not None:
                        if 0 <= c < len(el):
                            el[c] = self.setv(st, el[c], path, new, i + 1)
                        return ("seq", v[1], tuple(el), None)
                    if len(el) <= 8:
                        lo, hi = self.lb(st, p[1]), self.ub(st, p[1])
                        for j in range(len(el)):
                            if (lo is None or j >= lo) and (hi is None or j <= hi):
                                nv = self.setv(st, el[j], path, new, i + 1)
                                t = self.tjoin(self.gen(st, el[j]), self.gen(st, nv))
                                el[j] = self.instantiate(st, t)
                        return ("seq", v[1], tuple(el), None)
                    t = self.elem_t(st, v)
                    nv = self.setv(st, self.instantiate(st, t), path, new, i + 1)
                    return ("seq", v[1], None, self.tjoin(t, self.gen(st, nv)))
                if v[3] is None:
                    return v
                nv = self.setv(st, self.instantiate(st, v[3]), path, new, i + 1)
                return ("seq", v[1], None, self.tjoin(v[3], self.gen(st, nv)))
            return v
        raise Exception("setv " + repr(p))

    def read(self, st, root, path):
        v = st.mem.get(root, UN)
        r = self.getv(st, v, path)
        n = 0
        while r[0] in ("vtop", "dtop", "top") and n < 12:
            n += 1
            # expand the unknown prefix in place, then retry
            if r[0] == "top":
                e = self.expand(st, r[1])
                if e[0] == "top":
                    return e
                st.mem[root] = self.setv(st, st.mem[root], path, e)
                return e
            # find shortest prefix that is top
            done = False
            for j in range(len(path)):
                q = self.getv(st, st.mem[root], path[:j])
                if q[0] == "top":
                    e = self.expand(st, q[1])
                    if e[0] == "top":
                        return self.ptop(path)
                    st.mem[root] = self.setv(st, st.mem[root], path[:j], e)
                    done = True
                    break
            if not done:
                return UN
            r = self.getv(st, st.mem[root], path)
        return r

    def ptop(self, path):
        for p in reversed(path):
            if p[0] == "f" and len(p) > 2 and p[2] is not None:
                return ("top", p[2])
        return UN

    def write(self, st, root, path, new):
        if root not in st.mem and path:
            st.mem[root] = UN
        st.mem[root] = self.setv(st, st.mem.get(root, UN), path, new)
        self.writethrough(st, root)

    def writethrough(self, st, root):
        seen = set()
        while root in st.par and root not in seen:
            seen.add(root)
            t = self.gen(st, st.mem[root])
            for pr, pp in st.par[root]:
                if pr not in st.mem:
                    continue
                v = self.getv(st, st.mem[pr], pp)
                if v[0] == "seq":
                    if v[2] is not None:
                        nt = self.tjoin(self.elem_t(st, v), t)
                        nv = ("seq", v[1], None, nt)
                        if len(v[2]) <= 8:
                            nv = ("seq", v[1], tuple(self.instantiate(st, self.tjoin(self.gen(st, x), t)) for x in v[2]), None)
                    else:
                        nv = ("seq", v[1], None, self.tjoin(v[3], t))
                    st.mem[pr] = self.setv(st, st.mem[pr], pp, nv)
                elif v[0] == "obj" and v[1] == "map":
                    nv = ("obj", "map", v[2], (v[3][0], ("tm", self.tjoin(v[3][1][1], t)), v[3][2]))
                    st.mem[pr] = self.setv(st, st.mem[pr], pp, nv)
            root = st.par[root][0][0]

    def rd(self, st, mu):
        """read through a 'mu' or 'sh' reference"""
        if mu[0] == "sh":
            return mu[1]
        if mu[0] == "mu":
            if len(mu[1]) == 1:
                return self.read(st, mu[1][0][0], mu[1][0][1])
            t = None
            for r, p in mu[1]:
                t = self.tjoin(t, self.gen(st, self.read(st, r, p)))
            return self.instantiate(st, t)
        if mu[0] == "top":
            e = self.expand(st, mu[1])
            if e[0] in ("sh", "mu"):
                return self.rd(st, e)
        return UN

    def wr(self, st, mu, new):
        if mu[0] == "mu":
            if len(mu[1]) == 1:
                self.write(st, mu[1][0][0], mu[1][0][1], new)
            else:
                t = self.gen(st, new)
                for r, p in mu[1]:
                    o = self.gen(st, self.read(st, r, p))
                    self.write(st, r, p, self.instantiate(st, self.tjoin(o, t)))

    def cell(self, st, val, parent=None):
        r = ("cell", self.fresh())
        st.mem[r] = val
        if parent is not None:
            st.par[r] = parent
        return r

    # ------------------------------------------------------------- GC
    def reach(self, st, v, ints, chs, strs, roots):
        stack = [v]
        while stack:
            v = stack.pop()
            k = v[0]
            if k == "i" or k == "bz":
                if v[1]:
                    ints.add(v[1])
            elif k == "c":
                if v[1] > 0:
                    chs.add(v[1])
            elif k == "s":
                if v[1] not in strs:
                    strs.add(v[1])
                    i = st.st[v[1]]
                    stack.append(i.bl)
                    stack.append(i.cl)
                    stack.extend(i.pre)
                    stack.extend(i.suf)
            elif k == "sh":
                stack.append(v[1])
            elif k == "mu":
                for r, p in v[1]:
                    if r not in roots:
                        roots.add(r)
                        if r in st.mem:
                            stack.append(st.mem[r])
                        for q in st.par.get(r, ()):
                            stack.append(("mu", (q,)))
                    for e in p:
                        if e[0] == "x":
                            stack.append(e[1])
            elif k == "agg":
                stack.extend(v[1])
            elif k == "clo":
                stack.extend(v[2])
            elif k == "en":
                for _, f in v[1]:
                    stack.extend(f)
            elif k == "seq":
                stack.append(v[1])
                if v[2] is not None:
                    stack.extend(v[2])
            elif k == "obj":
                stack.extend(v[3])

    def gc(self, st, fr=None, live=None):
        ints, chs, strs, roots = set(), set(), set(), set()
        keep = []
        for r in st.mem:
            if r[0] == "cell":
                continue
            if fr is not None and r[0] == fr and live is not None and r[1] not in live:
                continue
            keep.append(r)
        for r in keep:
            if r not in roots:
                roots.add(r)
                self.reach(st, st.mem[r], ints, chs, strs, roots)
        if not roots >= st.mem.keys():
            st.mem = {r: v for r, v in st.mem.items() if r in roots}
        st.par = {r: p for r, p in st.par.items() if r in roots}
        if st.sel:
            st.sel = {k: v for k, v in st.sel.items() if k[0] in chs}
            chs.update(v[1] for v in st.sel.values() if v[1] > 0)
        if st.at:
            st.at = {k: c for k, c in st.at.items() if k[0] in strs and k[1] in ints}
            chs.update(c[1] for c in st.at.values() if c[1] > 0)
        for w, c in st.cw.items():
            if c[1] in chs:
                ints.add(w)
        if st.cw:
            for v, d in st.defs.items():
                if d[0] == "+" and (d[1][1] in st.cw or d[2][1] in st.cw) and d[1][1] in ints and d[2][1] in ints:
                    ints.add(v)
        # boundary expressions only over reachable ints
        for s in strs:
            i = st.st[s]
            if i.bn:
                nb = frozenset(b for b in i.bn if b[1] == 0 or b[1] in ints)
                # an entry may carry the character index of the position
                ints.update(b[3] for b in nb if len(b) > 3)
                if nb != i.bn:
                    st.st[s] = i._replace(bn=nb)
        st.st = {s: st.st[s] for s in strs}
        st.cs = {c: st.cs[c] for c in chs}
        st.ct = {c: t for c, t in st.ct.items() if c in chs}
        ints.add(0)
        st.defs = {v: d for v, d in st.defs.items() if v in ints and d[1][1] in ints and d[2][1] in ints}
        st.ci = {v: c for v, c in st.ci.items() if v in ints and (c[1] in chs or c[1] < 0)}
        if st.cw:
            st.cw = {w: c for w, c in st.cw.items() if w in ints and c[1] in chs}
        st.z.restrict(ints)

    # ------------------------------------------------------------- join
    def join(self, A, B, widening=0):
        """A: old state.  Returns (J, changed)"""
        J = Joiner(self, A, B, widening)
        return J.run()

    # ------------------------------------------------------------- signature
    def sigv(self, st, v, lvl):
        k = v[0]
        if k == "b":
            return v[1]
        if k == "bz":
            c = self.const(st, ("i", v[1], 0))
            return None if c is None else c == 1
        if k == "i":
            if lvl < 0:
                c = self.const(st, v)
                return c if c is not None and -4 <= c <= 16 else None
            return None
        if k == "en":
            if len(v[1]) == 1:
                j, f = v[1][0]
                return (j,) + tuple(self.sigv(st, x, lvl) for x in f)
            return "m"
        if k == "s":
            if lvl < 1:
                i = st.st[v[1]]
                if i.k is not None and len(i.k) <= 24:
                    return i.k
            return None
        if k == "agg":
            if not v[1]:
                return None
            t = tuple(self.sigv(st, x, lvl) for x in v[1])
            return t if any(x is not None for x in t) else None
        if k == "clo":
            t = tuple(self.sigv(st, x, lvl) for x in v[2])
            return t if any(x is not None for x in t) else None
        if k == "sh":
            return self.sigv(st, v[1], lvl)
        if k == "obj":
            if v[1] in ("sliter", "intoiter") and v[3][0][0] == "seq" and v[3][0][2] is not None and len(v[3][0][2]) <= 64 and lvl < 2:
                return ("it", self.const(st, v[3][1]))
            if v[1] in ("chars", "charidx") and lvl < 2 and v[3][0][0] == "s":
                i = st.st[v[3][0][1]]
                if i.ex and len(i.pre) <= 4:
                    return ("it", len(i.pre), self.const(st, v[3][1]))
            t = tuple(self.sigv(st, x, lvl) for x in v[3] if x[0] != "tm")
            return t if any(x is not None for x in t) else None
        if k == "seq":
            if v[2] is not None and len(v[2]) <= 8 and lvl < 2:
                return ("q", len(v[2]))
            if lvl < 4:
                u = self.lb(st, v[1])
                return "n" if u is not None and u >= 1 else "e" if self.ub(st, v[1]) == 0 else None
            return None
        return None

    def flags_in(self, st, v):
        if v[0] in ("b", "bz"):
            return self.sigv(st, v, 2)
        if v[0] == "sh":
            return self.flags_in(st, v[1])
        if v[0] == "agg":
            t = tuple(self.flags_in(st, x) for x in v[1])
            return t if any(x is not None for x in t) else None
        return None

    def sig(self, st, fr, lvl):
        out = []
        for r in sorted(st.mem, key=repr):
            if lvl >= 4:
                continue
            if lvl >= 2 and r[0] != fr:
                # only the flags stored there
                s = self.flags_in(st, st.mem[r])
                if s is not None:
                    out.append((r, s))
                continue
            if lvl >= 3 and r[1] != 0:
                continue
            s = self.sigv(st, st.mem[r], lvl)
            if s is not None:
                out.append((r, s))
        out.append(st.flags)
        return tuple(out)

    def merge(self, states, fr, cap, lvl0=0):
        """merge a list of states by signature"""
        if len(states) <= 1:
            return states, lvl0
        lvl = lvl0
        while True:
            d = {}
            for s in states:
                d.setdefault(self.sig(s, fr, lvl), []).append(s)
            if len(d) <= (cap if lvl >= 0 else 8) or lvl >= 4:
                break
            lvl += 1
        out = []
        for g in d.values():
            a = g[0]
            for b in g[1:]:
                a, _ = self.join(a, b)
            out.append(a)
        return out, lvl

    def fix(self, states, step, fr, cap=40, key=None, maxit=400):
        """fixpoint of a loop given as a Python step function.
        step(st) -> (continuing states, [(exit state)])"""
        heads = {}
        exits = {}
        work = list(states)
        lvl = 0
        it = 0
        while work:
            it += 1
            if it > maxit:
                raise Limit("fix")
            for s in work:
                self.gc(s)
            while True:
                d = {}
                for s in work:
                    d.setdefault(self.sig(s, fr, lvl), []).append(s)
                if len(set(d) | set(heads)) <= cap or lvl >= 4:
                    break
                lvl += 1
                work = work + [h for h, _ in heads.values()]
                heads = {}
                exits = {}
            nxt = []
            for sg, g in d.items():
                a = g[0]
                for b in g[1:]:
                    a, _ = self.join(a, b)
                if sg in heads:
                    old, n = heads[sg]
                    J, ch = self.join(old, a, 0 if n < 2 else 1 if n < 10 else 2 if n < 20 else 2.5 if n < 40 else 3)
                    if not ch:
                        continue
                    heads[sg] = (J, n + 1)
                    nxt.append((sg, J))
                else:
                    heads[sg] = (a, 0)
                    nxt.append((sg, a))
            work = []
            for sg, h in nxt:
                cont, ex = step(h.copy())
                exits[sg] = ex
                work.extend(c for c in cont if not c.z.bot)
        out = []
        for ex in exits.values():
            out.extend(e for e in ex if not e.z.bot)
        if len(out) > 1:
            for s in out:
                self.gc(s)
            out, _ = self.merge(out, fr, 24)
        return out


class Joiner:
    def __init__(self, E, A, B, widening):
        self.E, self.A, self.B, self.w = E, A, B, widening
        self.im = {}  # (la, lb) normalised -> joined lin base
        self.iA = {}  # joined var -> (var,c) or None
        self.iB = {}
        self.usedA = {}
        self.cm = {}
        self.csJ = {}
        self.ctJ = {}
        self.sm = {}
        self.stJ = {}
        self.usedc = set()
        self.useds = set()
        self.changed = False
        self.one = {}
        self.ends = {}

    def lin(self, a, b):
        if a == b and a[1] == 0:
            return a
        if a[1] == 0 and b[1] == 0:
            key = (0, (a[2], b[2]))
        else:
            key = (a[1], b[1], b[2] - a[2])
        if a[1] == 0:
            key = ("k", b[1], b[2] - a[2])
            # both varying from a constant: a = const ca, b = vb+cb ; joined j: A: ca ; B: vb+cb
        r = self.im.get(key)
        if r is not None:
            j, a0 = r
            return ("i", j, a[2] - a0) if a[1] == 0 else ("i", j, a[2] - a0)
        if a[1] != 0 and a[1] not in self.usedA:
            j = a[1]
            self.usedA[j] = True
            # joined var j: A: a.v ; B: b - a.c
            self.iA[j] = (a[1], 0)
            self.iB[j] = (b[1], b[2] - a[2])
            self.im[key] = (j, 0)
            return ("i", j, a[2])
        j = self.E.fresh()
        if a[1] != 0:
            self.iA[j] = (a[1], 0)
            self.iB[j] = (b[1], b[2] - a[2])
            self.im[key] = (j, 0)
            self.changed = True
            return ("i", j, a[2])
        # a constant
        self.iA[j] = (0, a[2])
        self.iB[j] = (b[1], b[2])
        self.im[key] = (j, a[2])
        self.changed = True
        return ("i", j, 0)

    def onelin(self, x, side):
        if x[1] == 0:
            return x
        key = (side, x[1])
        j = self.one.get(key)
        if j is None:
            if side == 0 and x[1] not in self.usedA:
                j = x[1]
                self.usedA[j] = True
            else:
                j = self.E.fresh()
                self.changed = True
            self.one[key] = j
            if side == 0:
                self.iA[j] = (x[1], 0)
                self.iB[j] = None
            else:
                self.iA[j] = None
                self.iB[j] = (x[1], 0)
        return ("i", j, x[2])

    def ch(self, a, b):
        if a == b and a[1] < 0:
            return a
        key = (a[1], b[1])
        r = self.cm.get(key)
        if r is not None:
            return r
        E = self.E
        ba, bb = E.cset(self.A, a), E.cset(self.B, b)
        ta, tb = E.ctag(self.A, a), E.ctag(self.B, b)
        if a[1] > 0 and a[1] not in self.usedc:
            j = a[1]
        else:
            j = E.fresh()
            self.changed = True
        self.usedc.add(j)
        n = ba | bb
        if n != ba or (ta | tb) != ta:
            self.changed = True
            if self.w >= 3:
                n = E.A.ALL
        self.csJ[j] = n
        if ta | tb:
            self.ctJ[j] = ta | tb
        r = ("c", j)
        self.cm[key] = r
        return r

    def onech(self, a, side):
        if a[1] < 0:
            return a
        key = ("one", side, a[1])
        r = self.cm.get(key)
        if r is not None:
            return r
        S = self.A if side == 0 else self.B
        if side == 0 and a[1] not in self.usedc:
            j = a[1]
        else:
            j = self.E.fresh()
            self.changed = True
        self.usedc.add(j)
        self.csJ[j] = S.cs[a[1]]
        if a[1] in S.ct:
            self.ctJ[j] = S.ct[a[1]]
        r = ("c", j)
        self.cm[key] = r
        return r

    def s(self, a, b):
        key = (a[1], b[1])
        r = self.sm.get(key)
        if r is not None:
            return r
        A, B = self.A, self.B
        ia, ib = A.st[a[1]], B.st[b[1]]
        if a[1] not in self.useds:
            j = a[1]
        else:
            j = self.E.fresh()
            self.changed = True
        self.useds.add(j)
        r = ("s", j)
        self.sm[key] = r
        self.stJ[j] = (ia, ib)
        cs = ia.cs | ib.cs
        if cs != ia.cs:
            self.changed = True
            if self.w >= 3:
                cs = self.E.A.ALL
        bl = self.lin(ia.bl, ib.bl)
        cl = bl if (ia.bl == ia.cl and ib.bl == ib.cl) else self.lin(ia.cl, ib.cl)
        ex = ia.ex and ib.ex and len(ia.pre) == len(ib.pre)
        n = 0
        pre = []
        while n < len(ia.pre) and n < len(ib.pre):
            pre.append(self.ch(ia.pre[n], ib.pre[n]))
            n += 1
        suf = []
        n = 1
        if ex:
            suf = pre
        else:
            while n <= len(ia.suf) and n <= len(ib.suf):
                suf.insert(0, self.ch(ia.suf[-n], ib.suf[-n]))
                n += 1
        k = ia.k if ia.k == ib.k else None
        prov = ia.prov if ia.prov == ib.prov else None
        if k is None and (ia.k is not None or ib.k is not None or (ia.prov or ib.prov)):
            ka = frozenset([ia.k]) if ia.k is not None else ia.prov[1] if ia.prov and ia.prov[0] == "oneof" else None
            kb = frozenset([ib.k]) if ib.k is not None else ib.prov[1] if ib.prov and ib.prov[0] == "oneof" else None
            if ka is not None and kb is not None and len(ka | kb) <= 40:
                prov = ("oneof", ka | kb)
        if ex != ia.ex or len(pre) != len(ia.pre) or (not ex and len(suf) != len(ia.suf)) or k != ia.k or prov != ia.prov or (ia.tag | ib.tag) != ia.tag:
            self.changed = True
        self.stJ[j] = SI(bl, cl, cs, tuple(pre), tuple(suf), ex, k, frozenset(), ia.tag | ib.tag, prov)
        self.bnd = getattr(self, "bnd", [])
        self.bnd.append((j, ia.bn, ib.bn))
        self.ends[j] = (ia.bl + ia.cl[1:], ib.bl + ib.cl[1:])
        return r

    def ones(self, a, side):
        key = ("one", side, a[1])
        r = self.sm.get(key)
        if r is not None:
            return r
        S = self.A if side == 0 else self.B
        if side == 0 and a[1] not in self.useds:
            j = a[1]
        else:
            j = self.E.fresh()
            self.changed = True
        self.useds.add(j)
        r = ("s", j)
        self.sm[key] = r
        i = S.st[a[1]]
        self.stJ[j] = i._replace(
            bl=self.onelin(i.bl, side), cl=self.onelin(i.cl, side), pre=tuple(self.onech(c, side) for c in i.pre), suf=tuple(self.onech(c, side) for c in i.suf), bn=frozenset(b[:3] for b in i.bn if b[1] == 0)
        )
        return r

    def onev(self, v, side):
        k = v[0]
        f = self.onev
        if k == "i":
            return self.onelin(v, side)
        if k == "bz":
            r = self.onelin(("i", v[1], 0), side)
            return ("bz", r[1])
        if k == "c":
            return self.onech(v, side)
        if k == "s":
            return self.ones(v, side)
        if k == "sh":
            return ("sh", f(v[1], side))
        if k == "agg":
            return ("agg", tuple(f(x, side) for x in v[1]))
        if k == "clo":
            return ("clo", v[1], tuple(f(x, side) for x in v[2]))
        if k == "en":
            return ("en", tuple((i, tuple(f(x, side) for x in fs)) for i, fs in v[1]))
        if k == "seq":
            return ("seq", f(v[1], side), None if v[2] is None else tuple(f(x, side) for x in v[2]), v[3])
        if k == "obj":
            return ("obj", v[1], v[2], tuple(f(x, side) for x in v[3]))
        if k == "mu":
            return ("mu", tuple((r, tuple(e if e[0] != "x" else ("x", f(e[1], side)) for e in p)) for r, p in v[1]))
        return v

    def v(self, a, b):
        k, kb = a[0], b[0]
        E = self.E
        if k != kb:
            if k == "un" or kb == "un":
                if k != "un":
                    self.changed = True
                return UN
            if k == "top":
                return a
            if kb == "top":
                self.changed = True
                return b
            if k in ("b", "bz") and kb in ("b", "bz"):
                la = ("i", a[1], 0) if k == "bz" else I(1 if a[1] else 0)
                lb = ("i", b[1], 0) if kb == "bz" else I(1 if b[1] else 0)
                r = self.lin(la, lb)
                return self.bzlin(r)
            self.changed = True
            return UN
        if k == "i":
            return self.lin(a, b)
        if k == "b":
            if a == b:
                return a
            r = self.lin(I(int(a[1])), I(int(b[1])))
            return self.bzlin(r)
        if k == "bz":
            return self.bzlin(self.lin(("i", a[1], 0), ("i", b[1], 0)))
        if k == "c":
            return self.ch(a, b)
        if k == "s":
            return self.s(a, b)
        if k == "sh":
            return ("sh", self.v(a[1], b[1]))
        if k == "agg":
            if len(a[1]) != len(b[1]):
                # partially initialised aggregate
                n = max(len(a[1]), len(b[1]))
                fa = a[1] + (UN,) * (n - len(a[1]))
                fb = b[1] + (UN,) * (n - len(b[1]))
                return ("agg", tuple(self.v(x, y) for x, y in zip(fa, fb)))
            return ("agg", tuple(self.v(x, y) for x, y in zip(a[1], b[1])))
        if k == "clo":
            if a[1] != b[1]:
                self.changed = True
                return UN
            return ("clo", a[1], tuple(self.v(x, y) for x, y in zip(a[2], b[2])))
        if k == "en":
            da, db = dict(a[1]), dict(b[1])
            out = []
            for i in sorted(set(da) | set(db)):
                if i in da and i in db:
                    out.append((i, tuple(self.v(x, y) for x, y in zip(da[i], db[i]))))
                elif i in da:
                    out.append((i, tuple(self.onev(x, 0) for x in da[i])))
                else:
                    self.changed = True
                    out.append((i, tuple(self.onev(x, 1) for x in db[i])))
            return ("en", tuple(out))
        if k == "seq":
            ln = self.v(a[1], b[1])
            if a[2] is not None and b[2] is not None and len(a[2]) == len(b[2]):
                return ("seq", ln, tuple(self.v(x, y) for x, y in zip(a[2], b[2])), None)
            ta, tb = E.elem_t(self.A, a), E.elem_t(self.B, b)
            t = E.tjoin(ta, tb)
            if a[2] is not None or t != ta:
                self.changed = True
                if self.w and t is not None and ta is not None:
                    t = self.twiden(ta, t)
            return ("seq", ln, None, t)
        if k == "obj":
            if a[1] != b[1] or len(a[3]) != len(b[3]):
                self.changed = True
                return ("top", a[2]) if a[2] is not None and a[2] == b[2] else UN
            return ("obj", a[1], a[2], tuple(self.v(x, y) for x, y in zip(a[3], b[3])))
        if k == "tm":
            t = E.tjoin(a[1], b[1])
            if t != a[1]:
                self.changed = True
                if self.w and a[1] is not None:
                    t = self.twiden(a[1], t)
            r = tm_keys(("tm", t), a, b)
            if len(r) != len(a) or r[2:] != a[2:]:
                self.changed = True
            return r
        if k == "mu":
            if a == b:
                return a
            # same shape with differing index expressions
            if len(a[1]) == 1 and len(b[1]) == 1 and a[1][0][0] == b[1][0][0] and len(a[1][0][1]) == len(b[1][0][1]):
                pa, pb = a[1][0][1], b[1][0][1]
                out = []
                ok = True
                for x, y in zip(pa, pb):
                    if x[0] == "x" and y[0] == "x":
                        out.append(("x", self.lin(x[1], y[1])))
                    elif x[:2] == y[:2]:
                        out.append(x)
                    else:
                        ok = False
                if ok:
                    return ("mu", ((a[1][0][0], tuple(out)),))
            u = tuple(dict.fromkeys(a[1] + b[1]))
            if len(u) != len(a[1]):
                self.changed = True
            return ("mu", u)
        if a == b:
            return a
        if k == "top":
            return a
        if k == "fn":
            self.changed = True
            return UN
        self.changed = True
        return UN

    def bzlin(self, r):
        if r[1] == 0:
            return ("b", r[2] == 1)
        if r[2] == 0:
            return ("bz", r[1])
        # offset: need a dedicated variable
        return ("bzo", r)

    def twiden(self, old, new):
        """widen integer/length bounds inside templates"""
        if old == new:
            return new
        if old[0] != new[0]:
            return new
        k = new[0]
        f = self.twiden
        if k == "I":
            lo = new[1] if old[1] == new[1] else self.th_lo(new[1])
            hi = new[2] if old[2] == new[2] else self.th_hi(new[2])
            return ("I", lo, hi)
        if k == "S":
            return ("S", new[1], new[2] if old[2] == new[2] else 0, new[3] if old[3] == new[3] else self.th_hi(new[3]), new[4] if old[4] == new[4] else 0, new[5] if old[5] == new[5] else self.th_hi(new[5]), None if old[6] != new[6] and self.w >= 2 else new[6], new[7])
        if k in ("sh", "tm"):
            return (k, f(old[1], new[1])) + new[2:] if old[1] is not None else new
        if k == "agg" and len(old[1]) == len(new[1]):
            return ("agg", tuple(f(x, y) for x, y in zip(old[1], new[1])))
        if k == "en":
            d = dict(old[1])
            return ("en", tuple((i, tuple(f(x, y) for x, y in zip(d[i], fs)) if i in d else fs) for i, fs in new[1]))
        if k == "seq":
            if new[2] is None:
                return ("seq", f(old[1], new[1]), None, new[3] if old[2] is not None or old[3] is None or new[3] is None else f(old[3], new[3]))
            return new
        if k == "obj" and old[1] == new[1] and len(old[3]) == len(new[3]):
            return ("obj", new[1], new[2], tuple(f(x, y) for x, y in zip(old[3], new[3])))
        return new

    THL = [0, 1, 2, 3, 4, 6, 10, 26, 64, 256, 1024]

    def th_hi(self, x):
        if x is None or self.w >= 2:
            return None
        for t in self.THL:
            if x <= t:
                return t
        return None

    def th_lo(self, x):
        if x is None:
            return None
        return 0 if x >= 0 and self.w < 2 else None

    def fixbz(self, v):
        """replace ('bzo', lin) markers"""
        return v

    def past(self, S, w):
        r = [(("i", w, 0), ("i", 0, 0))]
        for v, d in S.defs.items():
            if d[0] == "+":
                for x, y in ((d[1], d[2]), (d[2], d[1])):
                    if y == ("i", w, 0):
                        r.append((("i", v, 0), x))
        return r[:3]

    def run(self):
        A, B, E = self.A, self.B, self.E
        mem = {}
        for r in A.mem:
            if r in B.mem:
                mem[r] = self.v(A.mem[r], B.mem[r])
            elif r[0] == "cell":
                mem[r] = self.onev(A.mem[r], 0)
        for r in B.mem:
            if r not in A.mem and r[0] == "cell":
                self.changed = True
                mem[r] = self.onev(B.mem[r], 1)
            elif r not in A.mem:
                pass
        for r in A.mem:
            if r not in mem:
                self.changed = True
        cwj, dj = {}, {}
        once = set()
        for w, c in A.cw.items() if B.cw else ():
            for w2, c2 in B.cw.items():
                cj = self.cm.get((c[1], c2[1]))
                if cj is not None and (cj not in once or (w, w2, 0) in self.im):
                    once.add(cj)
                    r = self.v(("i", w, 0), ("i", w2, 0))
                    if r[0] == "i" and r[1] and r[2] == 0:
                        cwj[r[1]] = cj
                        # positions past a character of unknown width
                        ca, cb = self.past(A, w), self.past(B, w2)
                        for v, x in ca:
                            for v2, x2 in cb:
                                key = ("k" if x[1] == 0 else x[1], x2[1], x2[2] - x[2])
                                if (x[1] or x2[1]) and key in self.im:
                                    p, q = self.v(v, v2), self.v(x, x2)
                                    if p[1] and p[2] == 0:
                                        dj[p[1]] = ("+", q, r)
        selj = {}
        for k, c in A.sel.items() if B.sel else ():
            for k2, c2 in B.sel.items():
                if k[1:] == k2[1:]:
                    cj = self.cm.get((k[0], k2[0]))
                    if cj is not None:
                        r = self.v(c, c2)
                        if r[0] == "c":
                            selj[(cj[1],) + k[1:]] = r
        atj = {}
        for k, c in A.at.items() if B.at else ():
            for k2, c2 in B.at.items():
                j = self.sm.get((k[0], k2[0]))
                q = self.im.get((k[1], k2[1], k2[2] - k[2]))
                cj = self.cm.get((c[1], c2[1]))
                if cj is None and c == c2 and c[1] < 0:
                    cj = c
                if j is not None and q is not None and cj is not None:
                    atj[(j[1], q[0], k[2] - q[1])] = cj
        # string boundary facts
        for j, ba, bb in getattr(self, "bnd", []):
            keep = set()
            zero = ("i", 0, 0, 0, 0)
            la, lb = self.ends[j]
            xs = ba | {zero, la}
            ys = bb | {zero, lb}
            for x in xs:
                for y in ys:
                    if (x is zero and y is zero) or (x is la and y is lb):
                        continue
                    if x[1] == 0 and x[:3] == y[:3]:
                        p = x[:3]
                    else:
                        key = ("k", y[1], y[2] - x[2]) if x[1] == 0 else (x[1], y[1], y[2] - x[2])
                        q = self.im.get(key)
                        if q is None:
                            continue
                        p = ("i", q[0], x[2] - q[1])
                    if len(x) > 3 and len(y) > 3:
                        if x[3] == 0 and x[3:] == y[3:]:
                            p += x[3:]
                        else:
                            key = ("k", y[3], y[4] - x[4]) if x[3] == 0 else (x[3], y[3], y[4] - x[4])
                            q = self.im.get(key)
                            if q is not None:
                                p += (q[0], x[4] - q[1])
                    keep.add(p)
            nb = frozenset(keep)
            if nb != ba:
                self.changed = True
            self.stJ[j] = self.stJ[j]._replace(bn=nb)
        st = State()
        st.mem = mem
        st.cs = self.csJ
        st.ct = self.ctJ
        st.st = self.stJ
        st.par = {r: p for r, p in list(A.par.items()) + list(B.par.items()) if r in mem}
        names = [0] + list(self.iA)
        m = len(names)
        ea = [(0, 0)] + [self.iA[j] for j in names[1:]]
        eb = [(0, 0)] + [self.iB[j] for j in names[1:]]
        onlyA = np.array([x is None for x in eb])
        onlyB = np.array([x is None for x in ea])
        RA = A.z.project([x or (0, 0) for x in ea])
        RB = B.z.project([x or (0, 0) for x in eb])
        R = np.maximum(RA, RB)
        if onlyA.any() or onlyB.any():
            both = ~(onlyA | onlyB)
            z = np.zeros(m, dtype=bool)
            z[0] = True
            for ind, src in ((onlyA, RA), (onlyB, RB)):
                # constraints among one-sided variables and against zero come from their side
                ok = ind | z
                mm = np.logical_and.outer(ind, ok) | np.logical_and.outer(ok, ind)
                R[mm] = src[mm]
                rest = np.logical_and.outer(ind, ~ok) | np.logical_and.outer(~ok, ind)
                R[rest] = INF
        np.fill_diagonal(R, 0)
        if self.w:
            horizon(RA, R)
        # compare with the old state (vars named like A's keep their meaning)
        if (R > RA).any():
            d = (R > RA)
            if onlyB.any():
                d[onlyB, :] = False
                d[:, onlyB] = False
            if d.any():
                self.changed = True
        if self.w and self.changed:
            W = widen(RA, R, self.w >= 2, self.w < 2.5)
            if onlyB.any():
                # new one-sided variables: no old bound to compare with
                W[onlyB, :] = R[onlyB, :]
                W[:, onlyB] = R[:, onlyB]
            R = close(W)
        st.z = Zone.from_matrix(names, R)
        # definitions valid on both sides and for unchanged names
        same = {j for j in self.iA if self.iA[j] == (j, 0) and self.iB[j] == (j, 0)}
        same.add(0)
        for v, d in A.defs.items():
            if v in same and d[1][1] in same and d[2][1] in same and B.defs.get(v) == d:
                st.defs[v] = d
        for v, c in A.ci.items():
            if v in same and B.ci.get(v) == c and self.cm.get((c[1], c[1])) == c:
                st.ci[v] = c
        for v, d in dj.items():
            st.defs.setdefault(v, d)
        st.cw = cwj
        st.sel = selj
        st.at = {k: c for k, c in atj.items() if k[0] in st.st and (c[1] < 0 or c[1] in st.cs)}
        if len(st.at) < len(A.at) and not set(A.at) <= set(st.at):
            self.changed = True
        st.ev = A.ev & B.ev
        st.flags = A.flags
        if st.ev != A.ev:
            self.changed = True
        # materialise boolean markers
        if any(self._hasbzo(v) for v in mem.values()):
            for r in list(mem):
                mem[r] = self._unbzo(st, mem[r])
        return st, self.changed

    def _hasbzo(self, v):
        if not isinstance(v, tuple):
            return False
        if v and v[0] == "bzo":
            return True
        return any(self._hasbzo(x) for x in v if isinstance(x, tuple))

    def _unbzo(self, st, v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "bzo":
            r = v[1]
            n = self.E.fresh()
            st.z.add_eq(n, r[1], r[2])
            return ("bz", n)
        if v[0] in ("i", "c", "s", "tm", "top"):
            return v
        return tuple(self._unbzo(st, x) if isinstance(x, tuple) else x for x in v)
