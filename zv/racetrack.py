"""Independent model of the racetrack domain: a car on a grid with position and velocity, nine accelerations, slip or wind
errors, walls anywhere along the straight path from cell centre to cell centre, restart after a crash."""
from fractions import Fraction as F
import numpy as np

START, FINISH = ("start",), ("finish",)


class Track:
    def __init__(self, rows, discount=1.0, err=0.1, wind=0, maxcost=1000.0, usemax=1):
        self.rows, self.discount, self.err, self.wind, self.maxcost, self.usemax = rows, discount, err, wind, maxcost, usemax
        self.starts = [(x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c == "s"]
        self._lt = {}

    def text(self):
        L = ["discount %.17g" % self.discount, "errorProbability %.17g" % self.err, "useMaxCost %d" % self.usemax]
        L.append("maxCost %.17g" % self.maxcost)
        L.append("useErrorIsWind %d" % self.wind)
        return "\n".join(L) + "\n---\n" + "\n".join(self.rows) + "\n"

    def cell(self, x, y):
        if not (0 <= y < len(self.rows) and 0 <= x < len(self.rows[0])):
            return "@"
        return self.rows[y][x]

    def cells_on(self, x0, y0, dx, dy):
        """cells whose open interior the segment between the two centres crosses, in travel order (offsets)"""
        if dx == 0 and dy == 0:
            return [(0, 0)]
        ts = {F(0), F(1)}
        # parameters where the segment crosses a cell border (half-integer coordinate)
        for d in (dx, dy):
            k = F(1, 2)
            while k < abs(d):
                ts.add(k / abs(d))
                k += 1
        ts = sorted(t for t in ts if 0 <= t <= 1)
        out = []
        for a, b in zip(ts, ts[1:]):
            m = (a + b) / 2
            px, py = m * dx, m * dy
            c = (int((px + F(1, 2)).__floor__()), int((py + F(1, 2)).__floor__()))
            if not out or out[-1] != c:
                out.append(c)
        return out

    def path(self, x, y, dx, dy):
        k = (x, y, dx, dy)
        if k in self._lt:
            return self._lt[k]
        r = "ok"
        for cx, cy in self.cells_on(x, y, dx, dy):
            c = self.cell(x + cx, y + cy)
            if c == "f":
                r = "finish"
                break
            if c == "@":
                r = "crash"
                break
        self._lt[k] = r
        return r

    def outcomes(self, s, a):
        """dict successor -> probability"""
        out = {}

        def add(t, p):
            if p > 0:
                out[t] = out.get(t, 0.0) + p
        if s == START:
            for x, y in self.starts:
                add((x, y, 0, 0), 1.0 / len(self.starts))
            return out
        if s == FINISH:
            return {FINISH: 1.0}
        x, y, vx, vy = s
        ax, ay = a // 3 - 1, a % 3 - 1
        cases = [((ax, ay), 1 - self.err)]
        if self.wind:
            for ex in (-1, 0, 1):
                for ey in (-1, 0, 1):
                    if (ex, ey) != (0, 0):
                        cases.append(((ax + ex, ay + ey), self.err / 8))
        else:
            cases.append(((0, 0), self.err))
        for (bx, by), p in cases:
            nvx, nvy = vx + bx, vy + by
            r = self.path(x, y, nvx, nvy)
            if r == "finish":
                add(FINISH, p)
            elif r == "crash":
                add(START, p)
            else:
                add((x + nvx, y + nvy, nvx, nvy), p)
        return out

    def reward(self, s, a):
        if s == FINISH:
            return 0.0
        if s == START and self.discount == 1.0:
            return 0.0
        return -1.0

    def solve(self, limit=30000, tol=1e-11):
        """exact values over the reachable states; returns (index, V, Q) or None"""
        import scipy.sparse as sp
        idx = {START: 0}
        order = [START]
        rows, cols, vals = [], [], []
        i = 0
        while i < len(order):
            s = order[i]
            for a in range(9):
                for t, p in self.outcomes(s, a).items():
                    if t not in idx:
                        idx[t] = len(order)
                        order.append(t)
                    rows.append(i * 9 + a)
                    cols.append(idx[t])
                    vals.append(p)
            i += 1
            if len(order) > limit:
                return None
        n = len(order)
        P = sp.csr_matrix((vals, (rows, cols)), shape=(n * 9, n))
        R = np.array([self.reward(s, a) for s in order for a in range(9)])
        V = np.zeros(n)
        fin = idx.get(FINISH)
        if fin is None:
            return None
        for _ in range(20000):
            Q = (R + self.discount * (P @ V)).reshape(n, 9)
            W = Q.max(1)
            W[fin] = 0
            d = np.abs(W - V).max()
            V = W
            if d < tol:
                break
            if V.min() < -5000:
                return None
        else:
            return None
        Q = (R + self.discount * (P @ V)).reshape(n, 9)
        self.idx, self.order, self.V, self.Q = idx, order, V, Q
        return V


def state_of_vec(v):
    """zmdp's 4-component state vector -> reference state"""
    x = tuple(int(round(t)) for t in v)
    if x[0] == -1:
        return START
    if x[0] == -2:
        return FINISH
    return x


def rnd_track(rng, small=True):
    while True:
        w, h = int(rng.integers(5, 10 if small else 16)), int(rng.integers(5, 8 if small else 12))
        g = [["@" if x in (0, w - 1) or y in (0, h - 1) else " " for x in range(w)] for y in range(h)]
        for _ in range(int(rng.integers(0, w * h // 6))):
            x, y = int(rng.integers(1, w - 1)), int(rng.integers(1, h - 1))
            g[y][x] = "@"
        ns, nf = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        xs = [(x, y) for y in range(1, h - 1) for x in range(1, w - 1)]
        pick = rng.permutation(len(xs))
        for i in range(ns):
            x, y = xs[pick[i]]
            g[y][x] = "s"
        for i in range(ns, ns + nf):
            x, y = xs[pick[i]]
            g[y][x] = "f"
        # finish must be reachable by unit moves from every start
        ok = True
        for x0, y0 in [xs[pick[i]] for i in range(ns)]:
            seen, todo, hit = {(x0, y0)}, [(x0, y0)], False
            while todo:
                x, y = todo.pop()
                if g[y][x] == "f":
                    hit = True
                    break
                for dx in (-1, 0, 1):
                    for dy in (-1, 0, 1):
                        q = (x + dx, y + dy)
                        if q not in seen and g[q[1]][q[0]] != "@":
                            seen.add(q)
                            todo.append(q)
            ok = ok and hit
        if ok:
            break
    disc = 1.0 if rng.random() < 0.6 else float(rng.choice([0.9, 0.95, 0.99, rng.uniform(0.7, 0.99)]))
    err = float(rng.choice([0.0, 0.1, 0.2, 0.3]))
    wind = int(rng.random() < 0.4)
    return Track(["".join(r) for r in g], disc, err, wind, 1000.0, 1 if disc == 1.0 else int(rng.integers(0, 2)))
