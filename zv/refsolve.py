"""Reference bounds for POMDP values: independent point-based solver with certified lower and upper values.

Lower: alpha vectors produced by exact Bellman backups from a blind-policy floor: each is a true lower bound everywhere.
Upper: corner values from the fully observable MDP (inflated by its residual) plus belief points produced by exact
backups, interpolated by the sawtooth rule: each is a true upper bound.
"""
import numpy as np


class RefPomdp:
    def __init__(self, m):
        self.m = m
        g = m.discount
        assert g < 1
        nS, nA = m.nS, m.nA
        # blind policies: solve exactly
        al = []
        for a in range(nA):
            A = np.eye(nS) - g * m.T[a]
            al.append(np.linalg.solve(A, m.R[:, a]))
        self.alpha = np.array(al)
        self.act = list(range(nA))
        # corners: MDP optimum by value iteration with residual bound
        V = np.zeros(nS)
        for _ in range(100000):
            W = (m.R + g * np.einsum("ast,t->sa", m.T, V)).max(1)
            d = np.abs(W - V).max()
            V = W
            if d < 1e-12:
                break
        # fast informed bound from above (monotone decreasing from the MDP bound)
        Qm = m.R + g * np.einsum("ast,t->sa", m.T, V) + d / (1 - g) + 1e-12
        for _ in range(400):
            # Q(s,a) = R + g sum_o max_a' sum_s' T Z Q(s',a')
            X = np.einsum("aost,tb->aosb", m.TZ, Qm).max(3).sum(1)  # a,s
            Q2 = m.R + g * X.T
            dd = np.abs(Q2 - Qm).max()
            Qm = np.minimum(Qm, Q2)
            if dd < 1e-10:
                break
        self.Qfib = Qm
        self.B = np.zeros((0, nS))
        self.U = np.zeros(0)
        self.corner = Qm.max(1)

    # -- evaluation
    def lower(self, b):
        return float((self.alpha @ b).max())

    def upper(self, b):
        v0 = float(b @ self.corner)
        v = min(v0, float((b @ self.Qfib).max()))
        if len(self.U):
            with np.errstate(divide="ignore", invalid="ignore"):
                r = np.where(self.B > 0, b / self.B, np.inf).min(1)
            r = np.minimum(r, 1)
            c = self.gapc
            cand = v0 + r * c
            v = min(v, float(cand.min()))
        return v

    def interval(self, b):
        return self.lower(b), self.upper(b)

    # -- backups
    def backup(self, b):
        m = self.m
        g = m.discount
        best = None
        bu = -np.inf
        for a in range(m.nA):
            u = m.R[:, a] @ b
            vec = m.R[:, a].copy()
            for o in range(m.nO):
                w = b @ m.TZ[a, o]
                p = w.sum()
                k = int(np.argmax(self.alpha @ w))
                vec = vec + g * (m.TZ[a, o] @ self.alpha[k])
                if p > 1e-14:
                    u += g * p * self.upper(w / p)
            v = vec @ b
            if best is None or v > best[0]:
                best = (v, vec, a)
            bu = max(bu, u)
        if best[0] > self.lower(b) + 1e-13:
            self.alpha = np.vstack([self.alpha, best[1]])
            self.act.append(best[2])
        if bu < self.upper(b) - 1e-13:
            nz = np.nonzero(b > 1e-12)[0]
            if len(nz) == 1:
                self.corner[nz[0]] = min(self.corner[nz[0]], bu)
                self.gapc = np.minimum(0, self.U - self.B @ self.corner) if len(self.U) else np.zeros(0)
            else:
                self.B = np.vstack([self.B, b])
                self.U = np.append(self.U, bu)
                self.gapc = np.minimum(0, self.U - self.B @ self.corner)
        return best[2]

    def explore(self, b, eps, maxbackups, depth=80):
        """HSVI-like refinement at b until upper-lower <= eps or the budget is spent; returns the backups used."""
        m = self.m
        g = m.discount
        n = 0
        while n < maxbackups:
            lo, up = self.interval(b)
            if up - lo <= eps:
                break
            path = []
            x = b
            d = 0
            target = (up - lo) * 0.9
            while d < depth:
                path.append(x)
                # action with the greatest upper value
                besta, bv, succs = None, -np.inf, None
                for a in range(m.nA):
                    sc = m.succ(x, a)
                    u = m.R[:, a] @ x + g * sum(p * self.upper(y) for _, p, y in sc)
                    if u > bv:
                        besta, bv, succs = a, u, sc
                ex = []
                for _, p, y in succs:
                    l2, u2 = self.interval(y)
                    ex.append((p * (u2 - l2 - target * g ** -(d + 1)), y))
                e, y = max(ex, key=lambda t: t[0])
                if e <= 0:
                    break
                x = y
                d += 1
            for y in reversed(path):
                self.backup(y)
                n += 1
            if len(self.alpha) > 400:
                self.prune()
        return n

    def prune(self):
        # keep planes that are best at some stored belief or corner
        P = np.vstack([self.B, np.eye(self.m.nS)]) if len(self.B) else np.eye(self.m.nS)
        keep = sorted(set(np.argmax(P @ self.alpha.T, 1)) | set(range(self.m.nA)))
        # the newest planes are kept as they may serve beliefs without a stored point
        keep = sorted(set(keep) | set(range(max(0, len(self.alpha) - 150), len(self.alpha))))
        self.alpha = self.alpha[keep]
        self.act = [self.act[i] for i in keep]


class TreeSolver:
    """Exact values of a POMDP that always ends within a few steps (memo over beliefs)."""

    def __init__(self, m, maxdepth=None, limit=400000):
        self.m, self.memo, self.limit = m, {}, limit
        self.maxdepth = maxdepth

    def key(self, b):
        return tuple(np.round(b, 12))

    def q(self, b, a):
        m = self.m
        return float(m.R[:, a] @ b) + m.discount * sum(p * self.v(y) for _, p, y in m.succ(b, a))

    def v(self, b):
        if self.m.is_term(b):
            return 0.0
        k = self.key(b)
        if k in self.memo:
            return self.memo[k]
        if len(self.memo) > self.limit:
            raise MemoryError("belief tree too large")
        r = max(self.q(b, a) for a in range(self.m.nA))
        self.memo[k] = r
        return r

    def interval(self, b):
        v = self.v(b)
        return v, v


def policy_value(m, choose, b0, eps=1e-5, limit=60000):
    """Interval containing the expected discounted reward of running choose(b) from b0 (beliefs tracked exactly).
    choose returns an action or raises."""
    g = m.discount
    rmax, rmin = m.R.max(), m.R.min()
    if g < 1:
        hi, lo = max(rmax, 0) / (1 - g), min(rmin, 0) / (1 - g)
    else:
        hi = lo = None
    memo = {}
    lo_t = up_t = 0.0
    total = 0.0
    # forward expansion of occupancy, merging equal beliefs per depth
    layer = {tuple(np.round(b0, 11)): (1.0, b0)}
    disc = 1.0
    n = 0
    depth = 0
    resid = 0.0
    span = (hi - lo) if hi is not None else None
    while layer:
        nxt = {}
        for k, (w, b) in layer.items():
            if m.is_term(b):
                continue
            if span is not None and w * disc * span < eps * 1e-4:
                resid += w * disc
                continue
            if k in memo:
                a = memo[k]
            else:
                n += 1
                if n > limit:
                    return None
                a = memo[k] = choose(b)
            total += w * disc * float(m.R[:, a] @ b)
            for _, p, y in m.succ(b, a):
                kk = tuple(np.round(y, 11))
                if kk in nxt:
                    nxt[kk] = (nxt[kk][0] + w * p, nxt[kk][1])
                else:
                    nxt[kk] = (w * p, y)
        layer = nxt
        disc *= g
        depth += 1
        mass = sum(w for w, _ in layer.values())
        if span is not None and mass * disc * span < eps:
            resid += mass * disc
            break
        if len(layer) > limit or depth > 3000:
            return None
    if span is None:
        return total, total, n
    return total + resid * lo, total + resid * hi, n


class TooBig(Exception):
    pass


class Exact2:
    """Two-state POMDP: the value function of the n-step problem as an exact upper envelope of lines in p = b[1],
    started from a constant below (resp. above) every value, so that V* is enclosed to ~1e-9."""

    def __init__(self, m, tol=1e-9, maxiter=700):
        assert m.nS == 2
        g = m.discount
        lo, hi = m.R.min() / (1 - g), m.R.max() / (1 - g)
        self.m = m
        self.L = self._iter(lo, tol, maxiter)
        self.span = (hi - lo) * g ** self.n + 1e-12

    @staticmethod
    def envelope(lines):
        """lines: array (k,2) of values at the two corners; keep the upper envelope over p in [0,1], in order of slope"""
        A = lines[np.lexsort((lines[:, 0], lines[:, 1] - lines[:, 0]))]
        hull = []
        for l in A:
            while hull:
                h = hull[-1]
                s1, s2 = h[1] - h[0], l[1] - l[0]
                if s2 - s1 <= 1e-15 * (1 + abs(s1)):
                    if l[0] >= h[0]:
                        hull.pop()
                        continue
                    break
                x = (h[0] - l[0]) / (s2 - s1)
                if len(hull) == 1:
                    if x <= 0:
                        hull.pop()
                        continue
                    break
                g = hull[-2]
                sg = g[1] - g[0]
                xg = (g[0] - h[0]) / (s1 - sg)
                if x <= xg:
                    hull.pop()
                    continue
                break
            else:
                hull.append(l)
                continue
            h = hull[-1]
            if (l[1] - l[0]) - (h[1] - h[0]) <= 1e-15 * (1 + abs(h[1] - h[0])):
                continue
            x = (h[0] - l[0]) / ((l[1] - l[0]) - (h[1] - h[0]))
            if x < 1:
                hull.append(l)
        return np.array(hull)

    @staticmethod
    def bps(h):
        if len(h) < 2:
            return np.zeros(0)
        s = h[:, 1] - h[:, 0]
        return (h[:-1, 0] - h[1:, 0]) / (s[1:] - s[:-1])

    def _iter(self, c, tol, maxiter):
        m = self.m
        g = m.discount
        G = np.array([[c, c]])
        self.n = 0
        span = (m.R.max() - m.R.min()) / (1 - g) + 1e-300
        work = 0
        while span * g ** self.n > tol and self.n < maxiter:
            work += len(G)
            if work > 60000:
                raise TooBig()
            allq = []
            for a in range(m.nA):
                cur = np.array([m.R[:, a]])
                for o in range(m.nO):
                    P = self.envelope((m.TZ[a, o] @ G.T).T * g)
                    b1, b2 = self.bps(cur), self.bps(P)
                    xs = np.sort(np.concatenate([[0.0], b1, b2, [1.0]]))
                    mid = (xs[:-1] + xs[1:]) / 2
                    i1 = np.searchsorted(b1, mid)
                    i2 = np.searchsorted(b2, mid)
                    cur = cur[i1] + P[i2]
                    if len(cur) > 1:
                        cur = np.unique(cur, axis=0)
                        cur = self.envelope(cur)
                allq.append(cur)
            G = self.envelope(np.vstack(allq))
            self.n += 1
        return G

    def interval(self, b):
        v = float((self.L @ b).max())
        return v - 1e-9, v + self.span + 1e-9


def pomdp_reference(m):
    if m.nS == 2:
        try:
            return Exact2(m, 1e-7)
        except TooBig:
            pass
    return RefPomdp(m)


class ExactMdp:
    def __init__(self, m):
        self.m = m
        self.V, self.Q = m.solve()
