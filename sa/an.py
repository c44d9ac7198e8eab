"""Shared harness: load the extracted program, build argument states, run roots."""
import itertools, json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
from engine import chars
from engine.core import *
from engine.interp import Interp
from engine import models3
from engine.models2 import install

BUILD = os.environ.get("RPHON_BUILD", os.path.join(V, "build"))
REPO = os.environ.get("RPHON_REPO", "/repo")


class Anchor(Exception):
    """a construct the rule is anchored in does not exist any more"""


def extract():
    out = os.path.join(BUILD, "all.json")
    r = subprocess.run(["bash", os.path.join(V, "sa", "extract.sh"), out], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
        raise SystemExit(3)
    return json.load(open(out))


class Program:
    def __init__(self, D):
        self.D = D
        self.F = {f["id"]: f for f in D["fns"]}
        self.T = D["types"]
        self._atoms = None
        self.engines = []

    def atoms(self):
        if self._atoms is None:
            singles = set()

            def walk(o):
                if isinstance(o, dict):
                    for k, v in o.items():
                        if k == "c" and isinstance(v, int):
                            singles.add(v)
                        elif k == "s" and isinstance(v, str):
                            if len(v) < 200:
                                singles.update(map(ord, v))
                        else:
                            walk(v)
                elif isinstance(o, list):
                    for v in o:
                        walk(v)

            for f in self.D["fns"]:
                if f["local"]:
                    walk(f.get("blocks"))
            self._atoms = chars.load(os.path.join(BUILD, "unicode.json"), singles)
        return self._atoms

    def engine(self, **cfg):
        E = Interp(self.D, self.atoms())
        install(E)
        E.cfg.update(cfg)
        self.engines.append(E)
        return E

    # -------------------------------------------------------------- lookups
    def roots(self, pred):
        seen, out = set(), []
        for r in self.D["roots"]:
            if pred(r):
                k = (r["inst"], r.get("impl_self") or "", r.get("trait_item") or "")
                if k not in seen:
                    seen.add(k)
                    out.append(r)
        return out

    def root(self, path, impl_self=None):
        """the root of one trait item for one type, or of one inherent function"""
        rs = self.roots(lambda r: (r.get("trait_item") == path and (r.get("impl_self") or "").split("<")[0] == impl_self) if impl_self else r["path"] == path)
        if not rs:
            raise Anchor("no function %s%s" % (path, " for " + impl_self if impl_self else ""))
        return self.F[rs[0]["inst"]]

    def fn(self, path):
        """a local function by its path"""
        for f in self.D["fns"]:
            if f["local"] and f["path"] == path:
                return f
        raise Anchor("no function " + path)

    def ty(self, pred):
        for i, t in enumerate(self.T):
            if pred(t):
                return i
        return None

    def adt(self, path):
        i = self.ty(lambda t: t["k"] == "adt" and t.get("path") in (path, "rphonetic::" + path))
        if i is None:
            raise Anchor("no type " + path)
        return i

    def fields(self, path):
        t = self.T[self.adt(path)]
        return [f[0] for f in t["variants"][0]["fields"]]


def unref(E, st, v):
    while v[0] in ("sh", "mu"):
        v = E.rd(st, v)
    return v


def split(E, st, v, depth=3):
    """enumerate booleans and small enums of a value: [(state, value)]"""
    k = v[0]
    if depth == 0:
        return [(st, v)]
    if k == "sh":
        return [(s, ("sh", w)) for s, w in split(E, st, v[1], depth)]
    if k == "mu" and len(v[1]) == 1:
        out = []
        for s, w in split(E, st, E.rd(st, v), depth):
            E.wr(s, v, w)
            out.append((s, v))
        return out
    if k == "bz":
        out = []
        for b in (0, 1):
            s = st.copy()
            if E.eqi(s, ("i", v[1], 0), I(b)):
                out.append((s, ("b", bool(b))))
        return out
    if k == "en" and len(v[1]) > 1 and len(v[1]) <= 4:
        return [(st.copy(), ("en", (x,))) for x in v[1]]
    if k == "agg":
        cur = [(st, ())]
        for x in v[1]:
            nxt = []
            for s, acc in cur:
                for s2, w in split(E, s, x, depth - 1):
                    nxt.append((s2, acc + (w,)))
            if len(nxt) > 16:
                nxt = [(s, acc + (x,)) for s, acc in cur]
            cur = nxt
        return [(s, ("agg", a)) for s, a in cur]
    return [(st, v)]


def unknown_args(E, f, given=(), splits=True):
    """[(state, args)]: every argument unknown, small enums/booleans enumerated.
    given: {index: value builder(E, st)}"""
    given = dict(given)
    st = State()
    cur = [(st, [])]
    for i in range(f["argc"]):
        nxt = []
        for s, a in cur:
            if i in given:
                v = given[i](E, s)
            else:
                v = E.deep_expand(s, ("top", f["locals"][i + 1]))
            if splits and len(cur) <= 8 and i not in given:
                for s2, w in split(E, s, v):
                    nxt.append((s2, a + [w]))
            else:
                nxt.append((s, a + [v]))
        cur = nxt
    return cur


def run(E, f, given=(), splits=True, pre=None):
    """analyse f on unknown arguments: [(state, value, args)]"""
    out = []
    for n, (st, args) in enumerate(unknown_args(E, f, given, splits)):
        if pre:
            if pre(E, st, args) is False:
                continue
        key = ("tmp", "arg%d" % n)
        st.mem[key] = ("agg", tuple(args))
        E.cfg["config"] = n
        for s, v in E.run_body(f, st, args):
            if s.z.bot:
                continue
            out.append((s, v, s.mem.get(key, ("agg", ()))[1]))
    return out
