"""Finite partition ("atoms") of the Unicode scalar values.  A set of characters is
a Python int used as a bit set over the atoms.  Every code point below 0x250 and every
code point that occurs in a constant of the analysed program is an atom of its own;
the other code points are grouped by character class, UTF-8 width and case images."""
import bisect
import json


class Atoms:
    def __init__(self, table, singles):
        U = {}
        cls = {}
        for k in ("alphabetic", "lowercase", "uppercase", "numeric", "whitespace", "control"):
            cls[k] = table[k]
        up = {c: tuple(m) for c, m in table["upper"]}
        lo = {c: tuple(m) for c, m in table["lower"]}
        self.up, self.lo = up, lo
        sing = set(range(0x250)) | set(singles)
        # case images of single characters are single too
        for c in list(sing):
            sing.update(up.get(c, ()))
            sing.update(lo.get(c, ()))
        sing = {c for c in sing if not 0xD800 <= c <= 0xDFFF}
        cuts = set([0, 0x80, 0x800, 0xD800, 0xE000, 0x10000, 0x110000])
        for k, rs in cls.items():
            for a, b in rs:
                cuts.add(a)
                cuts.add(b + 1)
        for c in sing:
            cuts.add(c)
            cuts.add(c + 1)
        for c in set(up) | set(lo):
            cuts.add(c)
            cuts.add(c + 1)
        cuts = sorted(cuts)
        flags_at = {}

        def inr(rs_start, rs, c):
            i = bisect.bisect_right(rs_start, c) - 1
            return i >= 0 and rs[i][0] <= c <= rs[i][1]

        starts = {k: [a for a, _ in v] for k, v in cls.items()}
        key2atom = {}
        self.seg_start = []
        self.seg_atom = []
        self.members = []  # representative code point, list of (a,b)
        for a, b in zip(cuts, cuts[1:]):
            if 0xD800 <= a < 0xE000:
                continue
            if a in sing and b == a + 1:
                key = ("s", a)
            else:
                fl = tuple(inr(starts[k], cls[k], a) for k in cls)
                w = 1 if a < 0x80 else 2 if a < 0x800 else 3 if a < 0x10000 else 4

                def img(m):
                    r = m.get(a)
                    if r is None:
                        return None
                    return tuple(x if x in sing else (-1, 1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4) for x in r)

                key = (fl, w, img(up), img(lo))
            at = key2atom.get(key)
            if at is None:
                at = len(self.members)
                key2atom[key] = at
                self.members.append([])
            self.members[at].append((a, b - 1))
            self.seg_start.append(a)
            self.seg_atom.append(at)
        self.n = len(self.members)
        self.ALL = (1 << self.n) - 1
        self.size = [sum(b - a + 1 for a, b in m) for m in self.members]
        self.ASCII = self.rng(0, 0x7F)
        self.cls = {}
        for k in cls:
            bits = 0
            for i, m in enumerate(self.members):
                if inr(starts[k], cls[k], m[0][0]):
                    bits |= 1 << i
            self.cls[k] = bits
        self.cls["alphanumeric"] = self.cls["alphabetic"] | self.cls["numeric"]
        self.UPPER = self.rng(65, 90)
        self.LOWER = self.rng(97, 122)
        self.DIGIT = self.rng(48, 57)
        self.cls["ascii"] = self.ASCII
        self.cls["ascii_uppercase"] = self.UPPER
        self.cls["ascii_lowercase"] = self.LOWER
        self.cls["ascii_alphabetic"] = self.UPPER | self.LOWER
        self.cls["ascii_digit"] = self.DIGIT
        self.cls["ascii_alphanumeric"] = self.UPPER | self.LOWER | self.DIGIT
        self.cls["ascii_whitespace"] = self.of(" \t\n\r\x0c")
        self.cls["ascii_control"] = self.rng(0, 31) | self.c(127)
        self.cls["ascii_punctuation"] = self.rng(33, 47) | self.rng(58, 64) | self.rng(91, 96) | self.rng(123, 126)
        self.cls["ascii_graphic"] = self.rng(33, 126)
        self.width = []
        for m in self.members:
            a = m[0][0]
            self.width.append(1 if a < 0x80 else 2 if a < 0x800 else 3 if a < 0x10000 else 4)
        self.wmask = {w: sum(1 << i for i in range(self.n) if self.width[i] == w) for w in (1, 2, 3, 4)}
        self.upimg = [self._img(m, up) for m in self.members]
        self.loimg = [self._img(m, lo) for m in self.members]
        self._cache = {}

    def _img(self, m, mp):
        bits = 0
        ml = 1
        mn = 99
        for a, b in m:
            for c in (range(a, b + 1) if b - a < 64 else (a,)):
                r = mp.get(c)
                if r is None:
                    bits |= self.rng(a, b) if b - a >= 64 else self.c(c)
                    mn = min(mn, 1)
                else:
                    for x in r:
                        bits |= self.c(x)
                    ml = max(ml, len(r))
                    mn = min(mn, len(r))
        return bits, mn, ml

    def atom(self, cp):
        i = bisect.bisect_right(self.seg_start, cp) - 1
        return self.seg_atom[i]

    def c(self, cp):
        return 1 << self.atom(cp)

    def of(self, s):
        r = 0
        for ch in s:
            r |= self.c(ord(ch))
        return r

    def rng(self, a, b):
        """atoms intersecting [a,b]"""
        r = 0
        i = bisect.bisect_right(self.seg_start, a) - 1
        while i < len(self.seg_start) and self.seg_start[i] <= b:
            r |= 1 << self.seg_atom[i]
            i += 1
        return r

    def rng_in(self, a, b):
        """atoms fully inside [a,b]"""
        r = 0
        for i in self.iter(self.rng(a, b)):
            m = self.members[i]
            if m[0][0] >= a and m[-1][1] <= b:
                r |= 1 << i
        return r

    def iter(self, bits):
        while bits:
            l = bits & -bits
            yield l.bit_length() - 1
            bits ^= l

    def single(self, bits):
        """the only code point of the set, or None"""
        if bits and not bits & (bits - 1):
            i = bits.bit_length() - 1
            if self.size[i] == 1:
                return self.members[i][0][0]
        return None

    def minmax(self, bits):
        lo, hi = None, None
        k = ("mm", bits)
        r = self._cache.get(k)
        if r:
            return r
        for i in self.iter(bits):
            m = self.members[i]
            lo = m[0][0] if lo is None else min(lo, m[0][0])
            hi = m[-1][1] if hi is None else max(hi, m[-1][1])
        self._cache[k] = (lo, hi)
        return lo, hi

    def wminmax(self, bits):
        ws = [w for w in (1, 2, 3, 4) if bits & self.wmask[w]]
        return (ws[0], ws[-1]) if ws else (1, 1)

    def map(self, bits, img):
        k = (id(img), bits)
        r = self._cache.get(k)
        if r is None:
            b, mn, mx = 0, 9, 0
            for i in self.iter(bits):
                x = img[i]
                b |= x[0]
                mn = min(mn, x[1])
                mx = max(mx, x[2])
            r = (b, mn if bits else 1, mx if bits else 1)
            self._cache[k] = r
        return r

    def to_ascii_lower(self, bits):
        k = ("al", bits)
        r = self._cache.get(k)
        if r is None:
            r = bits & ~self.UPPER
            for i in self.iter(bits & self.UPPER):
                r |= self.c(self.members[i][0][0] + 32)
            self._cache[k] = r
        return r

    def to_ascii_upper(self, bits):
        k = ("au", bits)
        r = self._cache.get(k)
        if r is None:
            r = bits & ~self.LOWER
            for i in self.iter(bits & self.LOWER):
                r |= self.c(self.members[i][0][0] - 32)
            self._cache[k] = r
        return r

    def show(self, bits, limit=60):
        if bits == self.ALL:
            return "any"
        out = []
        for i in self.iter(bits):
            m = self.members[i]
            if self.size[i] == 1:
                c = chr(m[0][0])
                out.append(c if c.isprintable() else "\\u{%x}" % m[0][0])
            else:
                out.append("<U+%04X..>" % m[0][0])
            if len(out) > limit:
                out.append("...")
                break
        return "{" + " ".join(out) + "}"


def load(path, singles):
    with open(path) as f:
        return Atoms(json.load(f), singles)
