"""Dense reference models, generators and printers.  Written from the file-format documentation, not from zmdp's code."""
import numpy as np


def fnum(x):
    return "%.17g" % x


class Pomdp:
    """T[a][s,s'], Z[a][s',o], R[s,a] (expected), b0, discount"""

    def __init__(self, T, Z, R, b0, discount, name="m"):
        self.T, self.Z, self.R, self.b0, self.discount, self.name = T, Z, R, b0, discount, name
        self.nS, self.nA, self.nO = R.shape[0], R.shape[1], Z.shape[2]
        self.terminal = np.array([all(abs(T[a, s, s] - 1) < 1e-9 and abs(R[s, a]) < 1e-12 for a in range(self.nA))
                                  for s in range(self.nS)])
        # TZ[a][o][s,s'] = T[a][s,s'] Z[a][s',o]
        self.TZ = np.einsum("ast,ato->aost", T, Z)

    def succ(self, b, a):
        """list of (o, prob, b')"""
        out = []
        for o in range(self.nO):
            u = b @ self.TZ[a, o]
            p = u.sum()
            if p > 1e-12:
                out.append((o, p, u / p))
        return out

    def is_term(self, b):
        return b[~self.terminal].sum() < 1e-9

    def text(self, fast=False):
        L = ["discount: " + fnum(self.discount), "values: reward", "states: %d" % self.nS, "actions: %d" % self.nA,
             "observations: %d" % self.nO, "start: " + " ".join(fnum(x) for x in self.b0)]
        for a in range(self.nA):
            for s in range(self.nS):
                for t in range(self.nS):
                    if self.T[a, s, t] != 0:
                        L.append("T: %d : %d : %d %s" % (a, s, t, fnum(self.T[a, s, t])))
        for a in range(self.nA):
            for t in range(self.nS):
                for o in range(self.nO):
                    if self.Z[a, t, o] != 0:
                        L.append("O: %d : %d : %d %s" % (a, t, o, fnum(self.Z[a, t, o])))
        for a in range(self.nA):
            for s in range(self.nS):
                if self.R[s, a] != 0 or (s == 0 and a == 0):
                    L.append("R: %d : %d : * : * %s" % (a, s, fnum(self.R[s, a])))
        return "\n".join(L) + "\n"


class Mdp:
    def __init__(self, T, R, s0, discount, name="m"):
        self.T, self.R, self.s0, self.discount, self.name = T, R, s0, discount, name
        self.nS, self.nA = R.shape
        self.terminal = np.array([all(abs(T[a, s, s] - 1) < 1e-9 and abs(R[s, a]) < 1e-12 for a in range(self.nA))
                                  for s in range(self.nS)])

    def text(self, fast=False):
        L = ["discount: " + fnum(self.discount), "values: reward", "states: %d" % self.nS, "actions: %d" % self.nA,
             "start: %d" % self.s0]
        for a in range(self.nA):
            for s in range(self.nS):
                for t in range(self.nS):
                    if self.T[a, s, t] != 0:
                        L.append("T: %d : %d : %d %s" % (a, s, t, fnum(self.T[a, s, t])))
        for a in range(self.nA):
            for s in range(self.nS):
                if self.R[s, a] != 0 or (s == 0 and a == 0):
                    L.append("R: %d : %d : * %s" % (a, s, fnum(self.R[s, a])))
        return "\n".join(L) + "\n"

    def solve(self):
        """Exact optimal values: value iteration to convergence, then policy evaluation by linear solve."""
        V = np.zeros(self.nS)
        for it in range(200000):
            Q = self.R + self.discount * np.einsum("ast,t->sa", self.T, V)
            W = Q.max(1)
            W[self.terminal] = 0
            d = np.abs(W - V).max()
            V = W
            if d < 1e-13 * max(1, np.abs(V).max()):
                break
        Q = self.R + self.discount * np.einsum("ast,t->sa", self.T, V)
        return V, Q


def dist(rng, n, k=None, grain=None):
    """random distribution over n with k non-zero entries, exactly normalised to rounding"""
    k = k or n
    idx = rng.choice(n, size=k, replace=False)
    if grain:
        w = rng.multinomial(grain, np.ones(k) / k).astype(float)
        w /= grain
    else:
        w = rng.dirichlet(np.ones(k) * rng.choice([0.3, 1.0, 3.0]))
        w = np.maximum(w, 0.004)
        w /= w.sum()
    out = np.zeros(n)
    out[idx] = w
    return out / out.sum()


def rnd_pomdp(rng, family):
    """One random POMDP of the named family."""
    f = family
    if f == "corridor":
        return corridor(rng)
    nS, nA, nO = int(rng.integers(2, 5)), int(rng.integers(2, 4)), int(rng.integers(2, 4))
    disc = float(rng.choice([0.5, 0.7, 0.8, 0.9]))
    scale = float(rng.choice([1.0, 1.0, 10.0, 100.0]))
    if f == "bigger":
        nS, nA, nO = int(rng.integers(6, 13)), int(rng.integers(2, 5)), int(rng.integers(2, 5))
        disc = float(rng.choice([0.5, 0.7, 0.8]))
    if f == "one_obs":
        nO = 1
    if f == "one_action":
        nA = 1
    if f == "full_obs":
        nO = nS
    T = np.zeros((nA, nS, nS))
    Z = np.zeros((nA, nS, nO))
    R = np.zeros((nS, nA))
    dense = rng.random() < 0.4
    for a in range(nA):
        for s in range(nS):
            if f == "determ":
                T[a, s] = dist(rng, nS, 1)
            elif f == "identity_obs_gather" and a > 0:
                T[a, s, s] = 1
            else:
                T[a, s] = dist(rng, nS, nS if dense else int(rng.integers(1, min(nS, 3) + 1)))
            if f == "full_obs":
                Z[a, s, s] = 1
            elif nO == 1:
                Z[a, s, 0] = 1
            else:
                Z[a, s] = dist(rng, nO, nO if rng.random() < 0.5 else int(rng.integers(1, nO + 1)))
            R[s, a] = np.round(rng.normal() * scale, int(rng.integers(0, 4)))
    b0 = dist(rng, nS, int(rng.integers(1, nS + 1)))
    if f == "neg":
        R = -np.abs(R) - 0.1 * scale
    if f == "pos":
        R = np.abs(R) + 0.1 * scale
    if f == "tiger":
        # hidden side, noisy listening, reset on commit
        nS, nA, nO = 2, 3, 2
        acc = float(rng.uniform(0.6, 0.95))
        T = np.zeros((3, 2, 2))
        Z = np.zeros((3, 2, 2))
        R = np.zeros((2, 3))
        T[0] = np.eye(2)
        Z[0] = [[acc, 1 - acc], [1 - acc, acc]]
        for a in (1, 2):
            T[a] = 0.5
            Z[a] = 0.5
        good, bad = float(rng.integers(2, 20)), -float(rng.integers(10, 100))
        R[:, 0] = -float(rng.integers(1, 3))
        R[0, 1], R[1, 1], R[0, 2], R[1, 2] = bad, good, good, bad
        b0 = np.array([0.5, 0.5])
        disc = float(rng.choice([0.7, 0.8, 0.9, 0.95]))
    if f in ("goal", "undisc"):
        # last state absorbing, zero reward, announced by its own observation
        nO = nO + 1
        Z2 = np.zeros((nA, nS + 1, nO))
        T2 = np.zeros((nA, nS + 1, nS + 1))
        R2 = np.zeros((nS + 1, nA))
        g = nS
        for a in range(nA):
            for s in range(nS):
                pg = float(rng.uniform(0.15, 0.6))
                T2[a, s, :nS] = T[a, s] * (1 - pg)
                T2[a, s, g] = pg
                Z2[a, s, :nO - 1] = Z[a, s]
                R2[s, a] = -abs(R[s, a]) if f == "goal" and rng.random() < 0.5 else R[s, a]
            T2[a, g, g] = 1
            Z2[a, g, nO - 1] = 1
        T, Z, R = T2, Z2, R2
        b0 = np.append(b0, 0.0)
    if f == "rare":
        # a state that is hardly ever reached but matters when it is
        nO = nO + 1
        h = nS
        T2, Z2, R2 = np.zeros((nA, nS + 1, nS + 1)), np.zeros((nA, nS + 1, nO)), np.zeros((nS + 1, nA))
        seen = rng.random() < 0.7
        big = 10.0 ** rng.uniform(1, 4)
        for a in range(nA):
            for s in range(nS):
                p = 10.0 ** -rng.uniform(1.5, 4.5) if rng.random() < 0.8 else 0.0
                T2[a, s, :nS] = T[a, s] * (1 - p)
                T2[a, s, h] = 1 - T2[a, s, :nS].sum() if p else 0.0
                Z2[a, s, :nO - 1] = Z[a, s]
            T2[a, h, :nS] = dist(rng, nS, int(rng.integers(1, nS + 1)))
            if seen:
                Z2[a, h, nO - 1] = 1
            else:
                Z2[a, h] = dist(rng, nO, nO)
            R2[:nS, a] = R[:, a]
            R2[h, a] = np.round(rng.normal() * scale * big, 3)
        T, Z, R, b0 = T2, Z2, R2, np.append(b0, 0.0)
    return Pomdp(T, Z, R, b0, disc, f)


POMDP_FAMILIES = ["plain", "plain", "determ", "one_obs", "one_action", "full_obs", "neg", "pos", "tiger", "goal",
                  "identity_obs_gather", "bigger", "rare"]


def corridor(rng, L=None):
    """a long line: every action moves on with some probability, what happened is observed, the end is absorbing"""
    L = L or int(rng.integers(12, 60))
    nS, nA, nO = L + 1, int(rng.integers(2, 4)), 3
    T, Z, R = np.zeros((nA, nS, nS)), np.zeros((nA, nS, nO)), np.zeros((nS, nA))
    parity = np.arange(nS) % 2
    for a in range(nA):
        q = np.where(rng.random(L) < 0.5, 1.0, rng.uniform(0.3, 0.95, L))
        T[a, np.arange(L), np.arange(1, nS)] = q
        T[a, np.arange(L), np.arange(L)] = 1 - q
        Z[a, np.arange(nS), parity] = 1
        R[:L, a] = np.round(rng.normal(size=L), 2)
    R[L - 1] += np.round(rng.normal() * 50, 1)
    T[:, L, L] = 1
    Z[:, L] = [0, 0, 1]
    b0 = np.zeros(nS)
    b0[0] = 1
    return Pomdp(T, Z, R, b0, float(rng.choice([0.95, 0.98, 0.99, 1.0])), "corridor")


def layered_pomdp(rng, discount, horizon=None, nper=None):
    """Every trajectory reaches the absorbing zero-reward state within `horizon` steps."""
    H = horizon or int(rng.integers(2, 5))
    k = nper or int(rng.integers(1, 4))
    nS = H * k + 1
    nA, nO = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    g = nS - 1
    T = np.zeros((nA, nS, nS))
    Z = np.zeros((nA, nS, nO))
    R = np.zeros((nS, nA))
    for a in range(nA):
        for s in range(nS):
            Z[a, s] = dist(rng, nO, int(rng.integers(1, nO + 1)))
        T[a, g, g] = 1
        Z[a, g] = 0
        Z[a, g, nO - 1] = 1
        for l in range(H):
            for i in range(k):
                s = l * k + i
                R[s, a] = np.round(rng.normal() * 10, 2)
                if l == H - 1:
                    T[a, s, g] = 1
                else:
                    nxt = list(range((l + 1) * k, (l + 2) * k))
                    p = dist(rng, k, int(rng.integers(1, k + 1)))
                    pg = float(rng.choice([0.0, 0.0, 0.3]))
                    T[a, s, nxt] = p * (1 - pg)
                    T[a, s, g] += pg
    b0 = np.zeros(nS)
    b0[:k] = dist(rng, k, int(rng.integers(1, k + 1)))
    m = Pomdp(T, Z, R, b0, discount, "layered")
    m.horizon = H
    return m


def long_mdp(rng):
    """a long way to the goal: trials have to reach far deeper than the state space is wide"""
    L = int(rng.integers(110, 360))
    nS, nA = L + 1, int(rng.integers(2, 4))
    T, R = np.zeros((nA, nS, nS)), np.zeros((nS, nA))
    at = np.arange(L)
    for a in range(nA):
        hop = 1 if a == 0 else int(rng.integers(1, 4))
        q = 1.0 if rng.random() < 0.5 else float(rng.uniform(0.8, 0.99))
        T[a, at, np.minimum(at + hop, L)] = q
        T[a, at, np.maximum(at - int(rng.integers(0, 2)), 0)] += 1 - q
        R[:L, a] = -np.round(rng.uniform(0.5, 2) * hop ** 0.9 / q, 1)
    T[:, L, L] = 1
    return Mdp(T, R, 0, float(rng.choice([0.99, 0.995, 0.999])), "mdp_long")


def rnd_mdp(rng, family):
    if family == "mdp_long":
        return long_mdp(rng)
    nS, nA = int(rng.integers(3, 12)), int(rng.integers(2, 5))
    disc = float(rng.choice([0.5, 0.8, 0.9, 0.95]))
    T = np.zeros((nA, nS, nS))
    R = np.zeros((nS, nA))
    g = nS - 1
    for a in range(nA):
        for s in range(nS):
            if family == "mdp_ergodic":
                T[a, s] = dist(rng, nS, int(rng.integers(1, min(4, nS) + 1)))
                R[s, a] = np.round(rng.normal() * 10, 2)
            else:
                if s == g:
                    T[a, s, s] = 1
                    continue
                p = dist(rng, nS - 1, int(rng.integers(1, min(4, nS - 1) + 1)))
                pg = float(rng.uniform(0.1, 0.5))
                T[a, s, :nS - 1] = p * (1 - pg)
                T[a, s, g] = pg
                R[s, a] = -float(rng.integers(1, 20)) if family == "mdp_ssp" else np.round(rng.normal() * 10, 2)
    if family == "mdp_ssp" and rng.random() < 0.5:
        disc = 1.0
    if family == "mdp_rare":
        # rare outcomes that matter: they lead where rewards are as large as they are unlikely
        p = 10.0 ** rng.uniform(-5, -2.5)
        T[:, :g - 1] *= 1 - p
        T[:, :g - 1, g - 1] += p
        R[g - 1] = np.round(rng.normal(0, 2 / p, nA), 2)
        T[:, g - 1] = 0
        T[:, g - 1, :g] += (0.9 * rng.dirichlet(np.ones(g), nA))
        T[:, g - 1, g] += 0.1
    m = Mdp(T, R, int(rng.integers(0, nS - 1)), disc, family)
    return m


MDP_FAMILIES = ["mdp_ergodic", "mdp_goal", "mdp_ssp"]
