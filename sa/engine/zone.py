"""Closed difference-bound matrices (zone domain) over integer variables.
Index 0 is the constant zero; entry [i,j] bounds v_i - v_j from above."""
import numpy as np

INF = 1 << 60
# Execution assumption: an in-memory collection has fewer than 2^47 elements and a counter that
# moves by less than 2^32 per loop iteration stays below 2^47 (2^47 iterations never complete).
HORIZON = 1 << 47
STEP = 1 << 32
CAP = 1 << 59


class Zone:
    __slots__ = ("ix", "M", "n", "own", "bot")

    def __init__(self):
        self.ix = {0: 0}
        self.M = np.zeros((16, 16), dtype=np.int64)
        self.M.fill(INF)
        self.M[0, 0] = 0
        self.n = 1
        self.own = True
        self.bot = False

    def copy(self):
        z = Zone.__new__(Zone)
        z.ix = self.ix
        z.M = self.M
        z.n = self.n
        z.own = False
        z.bot = self.bot
        self.own = False
        return z

    def _mut(self):
        if not self.own:
            self.ix = dict(self.ix)
            self.M = self.M.copy()
            self.own = True

    def add(self, v, lo=None, hi=None):
        self._mut()
        if self.n == self.M.shape[0]:
            k = self.n * 2
            M = np.full((k, k), INF, dtype=np.int64)
            M[: self.n, : self.n] = self.M[: self.n, : self.n]
            self.M = M
        i = self.n
        self.n += 1
        self.ix[v] = i
        M = self.M
        M[i, : i + 1] = INF
        M[: i + 1, i] = INF
        M[i, i] = 0
        if hi is not None and hi < CAP:
            M[i, :i] = np.minimum(INF, M[0, :i] + hi)
        if lo is not None and lo > -CAP:
            M[:i, i] = np.minimum(INF, M[:i, 0] - lo)
        if lo is not None and hi is not None and lo > hi:
            self.bot = True

    def add_eq(self, v, w, c):
        """new variable v = w + c"""
        self._mut()
        self.add(v)
        i, j = self.ix[v], self.ix[w]
        n = self.n
        M = self.M
        r = M[j, :n] + c
        r[M[j, :n] >= CAP] = INF
        q = M[:n, j] - c
        q[M[:n, j] >= CAP] = INF
        r[i] = 0
        q[i] = 0
        M[i, :n] = r
        M[:n, i] = q
        M[i, i] = 0
        M[i, j] = c
        M[j, i] = -c

    def ub(self, v, w=0):
        """upper bound of v - w or None"""
        b = int(self.M[self.ix[v], self.ix[w]])
        return None if b >= CAP else b

    def lb(self, v, w=0):
        b = int(self.M[self.ix[w], self.ix[v]])
        return None if b >= CAP else -b

    def le(self, v, w, c):
        """add v - w <= c; returns False if the state becomes empty"""
        i, j = self.ix[v], self.ix[w]
        if c >= CAP:
            return True
        if self.M[i, j] <= c:
            return not self.bot
        if self.M[j, i] + c < 0:
            self.bot = True
            return False
        self._mut()
        n = self.n
        M = self.M[:n, :n]
        col = M[:, i] + c
        col[M[:, i] >= CAP] = INF
        row = M[j, :]
        new = col[:, None] + row[None, :]
        new[(col >= CAP), :] = INF
        new[:, (row >= CAP)] = INF
        np.minimum(M, new, out=M)
        if (np.diagonal(M) < 0).any():
            self.bot = True
            return False
        return True

    def restrict(self, keep):
        """drop every variable not in keep"""
        vs = [0] + [v for v in self.ix if v != 0 and v in keep]
        if len(vs) == self.n:
            return
        idx = np.array([self.ix[v] for v in vs])
        m = len(vs)
        cap = 16
        while cap < m + 4:
            cap *= 2
        M = np.full((cap, cap), INF, dtype=np.int64)
        M[:m, :m] = self.M[np.ix_(idx, idx)]
        self.M = M
        self.n = m
        self.ix = {v: k for k, v in enumerate(vs)}
        self.own = True

    def project(self, exprs):
        """matrix of upper bounds of e_i - e_j for a list of (var, const)"""
        idx = np.array([self.ix[v] for v, _ in exprs])
        c = np.array([k for _, k in exprs], dtype=np.int64)
        M = self.M[np.ix_(idx, idx)]
        R = M + c[:, None] - c[None, :]
        R[M >= CAP] = INF
        return R

    @staticmethod
    def from_matrix(names, R):
        z = Zone.__new__(Zone)
        m = len(names)
        cap = 16
        while cap < m + 4:
            cap *= 2
        z.M = np.full((cap, cap), INF, dtype=np.int64)
        z.M[:m, :m] = R
        z.ix = {v: k for k, v in enumerate(names)}
        z.n = m
        z.own = True
        z.bot = False
        return z


def close(R):
    n = R.shape[0]
    for k in range(n):
        col = R[:, k]
        row = R[k, :]
        if (col >= CAP).all() and False:
            continue
        new = col[:, None] + row[None, :]
        new[col >= CAP, :] = INF
        new[:, row >= CAP] = INF
        np.minimum(R, new, out=R)
    return R


TH = np.array([-64, -26, -10, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 26, 64, 0x10FFFF, 1 << 47], dtype=np.int64)
TH.sort()


def horizon(old, new):
    hit = False
    for o, n in ((old[:, 0], new[:, 0]), (old[0, :], new[0, :])):
        m = (o <= HORIZON) & (n > HORIZON) & (n <= HORIZON + STEP)
        if m.any():
            n[m] = HORIZON
            hit = True
    if hit:
        close(new)


def widen(old, new, hard, bounds=False):
    """bounds: drop growing relations, but let bounds climb through the thresholds"""
    grow = new > old
    if hard and bounds:
        W = np.where(grow, INF, old)
        for o, n, w in ((old[:, 0], new[:, 0], W[:, 0]), (old[0, :], new[0, :], W[0, :])):
            pos = np.searchsorted(TH, n)
            t = np.where(pos < len(TH), TH[np.minimum(pos, len(TH) - 1)], INF)
            g = n > o
            w[g] = t[g]
        return W
    if hard:
        W = np.where(grow, INF, old)
        # loop counters and lengths: see HORIZON
        for o, n, w in ((old[:, 0], new[:, 0], W[:, 0]), (old[0, :], new[0, :], W[0, :])):
            w[(n > o) & (n <= HORIZON)] = HORIZON
        return W
    pos = np.searchsorted(TH, new)
    t = np.where(pos < len(TH), TH[np.minimum(pos, len(TH) - 1)], INF)
    t[new >= CAP] = INF
    return np.where(grow, t, old)
