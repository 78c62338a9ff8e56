"""Larger structured POMDPs, presentations of the same POMDP, and certified point-based bounds for them."""
import numpy as np

from .models import Pomdp, dist


def rocks(rng):
    """rover on a grid with rocks of unknown quality, long-range check with distance-dependent accuracy"""
    n, k = [(3, 2), (3, 3), (4, 2), (4, 3)][int(rng.integers(4))]
    cells = [(x, y) for x in range(n) for y in range(n)]
    rk = [cells[i] for i in rng.choice(len(cells), k, replace=False)]
    st = [(x, y, q) for x, y in cells for q in range(2 ** k)]
    ix = {s: i for i, s in enumerate(st)}
    nS, nA, nO = len(st) + 1, 5 + k, 2
    E = nS - 1
    T, Z, R = np.zeros((nA, nS, nS)), np.zeros((nA, nS, nO)), np.zeros((nS, nA))
    half = float(rng.choice([1.0, 2.0, 5.0]))
    for s, (x, y, q) in enumerate(st):
        for a, (dx, dy) in enumerate([(0, 1), (0, -1), (1, 0), (-1, 0)]):
            u, v = x + dx, y + dy
            if u >= n:
                T[a, s, E] = 1
                R[s, a] = 10
            elif 0 <= u and 0 <= v < n:
                T[a, s, ix[u, v, q]] = 1
            else:
                T[a, s, s] = 1
                R[s, a] = -1
            Z[a, s] = [1, 0]
        Z[4, s] = [1, 0]
        if (x, y) in rk:
            i = rk.index((x, y))
            good = q >> i & 1
            T[4, s, ix[x, y, q & ~(1 << i)]] = 1
            R[s, 4] = 10 if good else -10
        else:
            T[4, s, s] = 1
            R[s, 4] = -1
        for i in range(k):
            T[5 + i, s, s] = 1
            d = np.hypot(x - rk[i][0], y - rk[i][1])
            e = (1 + 2 ** (-d / half)) / 2
            Z[5 + i, s] = [e, 1 - e] if q >> i & 1 else [1 - e, e]
    T[:, E, E] = 1
    Z[:, E] = [1, 0]
    b0 = np.zeros(nS)
    x0 = cells[int(rng.integers(len(cells)))]
    for q in range(2 ** k):
        b0[ix[x0 + (q,)]] = 0.5 ** k
    return Pomdp(T, Z, R, b0, float(rng.choice([0.8, 0.9, 0.95])), "rocks")


def maze(rng):
    """walker in a random maze that senses the walls around it, noisily"""
    w, h = int(rng.integers(3, 6)), int(rng.integers(3, 6))
    cells = [(x, y) for x in range(w) for y in range(h) if rng.random() < 0.8] or [(0, 0), (1, 0)]
    if len(cells) < 3:
        cells = [(0, 0), (1, 0), (2, 0)]
    ix = {c: i for i, c in enumerate(cells)}
    nS, nA = len(cells), 4
    sense = float(rng.uniform(0.7, 1.0))
    slip = float(rng.choice([0.0, 0.1, 0.3]))
    D = [(0, 1), (0, -1), (1, 0), (-1, 0)]

    def go(c, a):
        n = (c[0] + D[a][0], c[1] + D[a][1])
        return n if n in ix else c
    nO = 4  # parity-like summary of the walls
    T, Z, R = np.zeros((nA, nS, nS)), np.zeros((nA, nS, nO)), np.zeros((nS, nA))
    goal = cells[int(rng.integers(nS))]
    for s, c in enumerate(cells):
        o = (go(c, 0) == c) + 2 * (go(c, 2) == c)
        for a in range(nA):
            if c == goal:  # starts anew somewhere
                T[a, s, :] = 1.0 / nS
                R[s, a] = 10
            else:
                T[a, s, ix[go(c, a)]] += 1 - slip
                T[a, s, ix[go(c, int(rng.integers(4)))]] += slip
                R[s, a] = -1 if rng.random() < 0.2 else 0
            Z[a, s, :] = (1 - sense) / (nO - 1)
            Z[a, s, o] = sense
    return Pomdp(T, Z, R, np.full(nS, 1.0 / nS), float(rng.choice([0.7, 0.8, 0.9])), "maze")


def sparse(rng):
    nS, nA, nO = int(rng.integers(15, 45)), int(rng.integers(2, 5)), int(rng.integers(2, 5))
    T, Z, R = np.zeros((nA, nS, nS)), np.zeros((nA, nS, nO)), np.zeros((nS, nA))
    for a in range(nA):
        for s in range(nS):
            T[a, s] = dist(rng, nS, int(rng.integers(1, 4)))
            Z[a, s] = dist(rng, nO, int(rng.integers(1, nO + 1)))
            R[s, a] = np.round(rng.normal() * 10, 1) if rng.random() < 0.5 else 0.0
    return Pomdp(T, Z, R, dist(rng, nS, int(rng.integers(1, 6))), float(rng.choice([0.5, 0.7, 0.85])), "sparse")


KINDS = {"rocks": rocks, "maze": maze, "sparse": sparse}


# ---- presentations: each returns (model, k, c, back, fwd): V'(b') = k V(b) + c, back maps b' to b (or None
# where there is none) and fwd maps b to a b'

def ident(x):
    return x


def permute(rng, m):
    p, q, o = rng.permutation(m.nS), rng.permutation(m.nA), rng.permutation(m.nO)
    n = Pomdp(m.T[np.ix_(q, p, p)], m.Z[np.ix_(q, p, o)], m.R[np.ix_(p, q)], m.b0[p], m.discount)

    def back(x):
        b = np.zeros(m.nS)
        b[p] = x
        return b
    return n, 1.0, 0.0, back, lambda b: b[p]


def scale(rng, m):
    k = float(rng.choice([0.01, 0.125, 8.0, 3.0, 1000.0]))
    return Pomdp(m.T, m.Z, m.R * k, m.b0, m.discount), k, 0.0, ident, ident


def shift(rng, m):
    if m.terminal.any():
        return permute(rng, m)
    c = float(rng.choice([-50.0, -3.0, 1.0, 20.0]))
    n = Pomdp(m.T, m.Z, m.R + c, m.b0, m.discount)
    return n, 1.0, c / (1 - m.discount), ident, ident


def dup_action(rng, m):
    i = np.sort(np.append(np.arange(m.nA), rng.integers(m.nA)))
    return Pomdp(m.T[i], m.Z[i], m.R[:, i], m.b0, m.discount), 1.0, 0.0, ident, ident


def split_obs(rng, m):
    o, p = int(rng.integers(m.nO)), float(rng.uniform(0.2, 0.8))
    Z = np.concatenate([m.Z, m.Z[:, :, o:o + 1] * (1 - p)], 2)
    Z[:, :, o] *= p
    return Pomdp(m.T, Z, m.R, m.b0, m.discount), 1.0, 0.0, ident, ident


def split_state(rng, m):
    s, p = int(rng.integers(m.nS)), float(rng.uniform(0.2, 0.8))
    if m.terminal[s]:
        return permute(rng, m)
    T = np.concatenate([m.T, m.T[:, s:s + 1, :]], 1)
    T = np.concatenate([T, T[:, :, s:s + 1] * (1 - p)], 2)
    T[:, :, s] *= p
    b = np.append(m.b0, m.b0[s] * (1 - p))
    b[s] *= p
    n = Pomdp(T, np.concatenate([m.Z, m.Z[:, s:s + 1]], 1), np.concatenate([m.R, m.R[s:s + 1]], 0), b, m.discount)

    def back(x):
        y = x[:-1].copy()
        y[s] += x[-1]
        return y

    def fwd(y):
        x = np.append(y, y[s] * (1 - p))
        x[s] *= p
        return x
    return n, 1.0, 0.0, back, fwd


def unreachable(rng, m):
    k = int(rng.integers(1, 4))
    nS = m.nS + k
    T = np.zeros((m.nA, nS, nS))
    T[:, :m.nS, :m.nS] = m.T
    Z = np.zeros((m.nA, nS, m.nO))
    Z[:, :m.nS] = m.Z
    R = np.zeros((nS, m.nA))
    R[:m.nS] = m.R
    for s in range(m.nS, nS):
        for a in range(m.nA):
            T[a, s] = dist(rng, nS, int(rng.integers(1, 4)))
            Z[a, s] = dist(rng, m.nO)
            R[s, a] = float(rng.uniform(m.R.min(), m.R.max()))
    n = Pomdp(T, Z, R, np.append(m.b0, np.zeros(k)), m.discount)
    return n, 1.0, 0.0, (lambda x: x[:m.nS] if x[m.nS:].sum() < 1e-12 else None), (
        lambda b: np.append(b, np.zeros(k)))



WAYS = {"permute": permute, "scale": scale, "shift": shift, "dup_action": dup_action, "split_obs": split_obs,
        "split_state": split_state, "unreachable": unreachable}


class Ref:
    """certified lower and upper bounds on V* by point-based backups at given beliefs"""

    def __init__(self, m, B, sweeps=25):
        self.m = m
        g = m.discount
        nz = ~m.terminal
        # upper: fast informed bound
        Q = np.full((m.nS, m.nA), max(m.R.max(), 0) / (1 - g))
        for _ in range(400):
            W = m.R.copy()
            for a in range(m.nA):
                for o in range(m.nO):
                    W[:, a] += g * (m.TZ[a, o] @ Q).max(1)
            W[m.terminal] = 0
            if np.abs(W - Q).max() < 1e-9:
                break
            Q = W
        # Q decreases monotonically from above, so every iterate is an upper bound
        self.corner = Q.max(1)
        self.fib = Q
        # lower: blind policies, iterated from below
        L = []
        for a in range(m.nA):
            v = np.full(m.nS, min(m.R.min(), 0) / (1 - g))
            for _ in range(2000):
                x = m.R[:, a] + g * m.T[a] @ v
                x[m.terminal] = 0
                if np.abs(x - v).max() < 1e-10:
                    break
                v = x
            L.append(v)
        self.A = self.L = np.array(L)
        self.B = B = np.array(B)
        self.U = (B @ self.fib).max(1)
        S = []
        for a in range(m.nA):
            for o in range(m.nO):
                Y = B @ m.TZ[a, o]
                p = Y.sum(1)
                S.append((a, p, Y / np.maximum(p, 1e-300)[:, None]))
        base = B @ m.R
        for _ in range(sweeps):
            best = np.full(len(B), -np.inf)
            new = np.zeros((len(B), m.nS))
            for a in range(m.nA):
                v = np.tile(m.R[:, a], (len(B), 1))
                for o in range(m.nO):
                    G = self.A @ m.TZ[a, o].T
                    v += g * G[(B @ G.T).argmax(1)]
                v[:, m.terminal] = 0
                x = (v * B).sum(1)
                k = x > best
                best[k], new[k] = x[k], v[k]
            keep = np.unique(np.round(np.concatenate([self.L, new]), 12), axis=0)
            gain = (best - (B @ self.A.T).max(1)).max()
            self.A = np.unique(np.concatenate([self.L, keep]), axis=0)
            V = base.copy()
            for a, p, Y in S:
                V[:, a] += g * p * self.upper(Y)
            U = np.minimum(self.U, V.max(1))
            drop = (self.U - U).max()
            self.U = U
            if max(gain, drop) < 1e-7:
                break
        # np.round above may have moved a plane by 1e-12: covered by the tolerance of the judge

    def lower(self, X):
        return (X @ self.A.T).max(1)

    def upper(self, X):
        """sawtooth interpolation over the points"""
        X = np.atleast_2d(X)
        out = np.minimum(X @ self.corner, (X @ self.fib).max(1))
        base = X @ self.corner
        gap = self.U - self.B @ self.corner
        for i in np.nonzero(gap < -1e-9)[0]:
            s = self.B[i] > 0
            r = (X[:, s] / self.B[i, s]).min(1)
            out = np.minimum(out, base + np.minimum(r, 1.0) * gap[i])
        return out
