"""The RockExplore domain and the heuristic policies of its program, written from README and the problem's description."""
import math
import numpy as np

W = H = 4
ROCKS = [(1, 3), (2, 1), (3, 1), (0, 0)]
START = (0, 1)
PRIOR = 0.7
GAMMA = 0.95
ACTS = ["amn", "ame", "ams", "amw", "as", "ac0", "ac1", "ac2", "ac3"]
MOVES = [(0, 1), (1, 0), (0, -1), (-1, 0)]
NC = 16
GOOD = np.array([[(c >> (3 - r)) & 1 for r in range(4)] for c in range(NC)], bool)   # GOOD[c, r]
CELLS = [(x, y) for x in range(W) for y in range(H)]
NSTATES = W * H * NC + 1


def name(p, c):
    return "st" if p is None else "sx%dy%dr%s" % (p[0], p[1], "".join(str(int(g)) for g in GOOD[c]))


def rock_at(p):
    return ROCKS.index(p) if p in ROCKS else None


def step(p, c, a):
    """p: (x, y) or None when it is over; c: which rocks are good.  -> next p, next c, reward"""
    if p is None:
        return None, c, 0
    if a < 4:
        q = (p[0] + MOVES[a][0], p[1] + MOVES[a][1])
        if q[0] == W:
            return None, c, 15
        if 0 <= q[0] and 0 <= q[1] < H:
            return q, c, -1
        return p, c, -100
    if a == 4:
        r = rock_at(p)
        if r is None:
            return p, c, -100
        return p, c & ~(1 << (3 - r)), 15 if GOOD[c, r] else -15
    return p, c, -1


def p_obs1(p, c, a):
    """probability of o1 after action a led to p, c"""
    if p is None or a < 5:
        return 0.0
    acc = 1.0 if ROCKS[a - 5] == p else 0.95
    return acc if GOOD[c, a - 5] else 1 - acc


def b0():
    return np.array([np.prod([PRIOR if g else 1 - PRIOR for g in GOOD[c]]) for c in range(NC)])


_V = {}


def values():
    """optimal values of the fully observable problem: V[p][c], Q[p][c, a]"""
    if _V:
        return _V["V"], _V["Q"]
    V = {p: np.zeros(NC) for p in CELLS}
    tab = {(p, c, a): step(p, c, a) for p in CELLS for c in range(NC) for a in range(9)}
    for _ in range(5000):
        Q = {p: np.zeros((NC, 9)) for p in CELLS}
        for (p, c, a), (q, d, r) in tab.items():
            Q[p][c, a] = r + (GAMMA * V[q][d] if q is not None else 0)
        N = {p: Q[p].max(1) for p in CELLS}
        e = max(np.abs(N[p] - V[p]).max() for p in CELLS)
        V = N
        if e == 0:
            break
    _V.update(V=V, Q=Q)
    return V, Q


def advance(p, b, a, o):
    """-> next p, posterior over which rocks are good (None: the observation is impossible)"""
    n = np.zeros(NC)
    q = p
    for c in range(NC):
        if b[c]:
            q, d, _ = step(p, c, a)
            z = p_obs1(q, d, a)
            n[d] += b[c] * (z if o == 1 else 1 - z)
    s = n.sum()
    return (q, n / s) if s > 0 else (q, None)


def hbar(p, b):
    if p is None:
        return 0.0
    x = b[b > 0]
    return float(-(x * np.log(x)).sum() / math.log(NSTATES))


def firsts(q):
    """the first of the best, for several readings of `as good as'"""
    out = set()
    for eps in (1e-14, 1e-12, 1e-10):
        m, k = -1e99, -1
        for i, v in enumerate(q):
            if v > m + eps:
                m, k = v, i
        out.add(k)
    return out


def choose(kind, p, b):
    """the set of actions a policy of this kind may take"""
    V, Q = values()
    if kind == 1:
        return firsts(b @ Q[p])
    if kind == 2:
        votes = np.zeros(9)
        for c in range(NC):
            if b[c] > 0:
                votes[min(firsts(Q[p][c]))] += b[c]
        return {int(a) for a in np.flatnonzero(votes >= votes.max() - 1e-9)}
    if kind == 3:
        out = set()
        for c in np.flatnonzero(b >= b.max() - 1e-9):
            out |= firsts(Q[p][c])
        return out
    h = hbar(p, b)
    out = set()
    if h > 0.1 - 1e-9:
        sh = []
        for a in range(9):
            t = 0.0
            for o in (0, 1):
                pr = 0.0
                for c in range(NC):
                    if b[c] > 0:
                        q, d, _ = step(p, c, a)
                        z = p_obs1(q, d, a)
                        pr += b[c] * (z if o else 1 - z)
                if pr > 0:
                    q, n = advance(p, b, a, o)
                    t += pr * hbar(q, n)
            sh.append(-t)
        out |= firsts(sh)
    if h <= 0.1 + 1e-9:
        out |= firsts(b @ Q[p])
    return out


_memo = {}


def choose_one(kind, p, b):
    k = (kind, p, b.round(12).tobytes())
    if k not in _memo:
        _memo[k] = min(choose(kind, p, b))
    return _memo[k]


def simulate(kind, rng, n, steps=100, pick=None):
    """total discounted rewards of n runs of a policy"""
    out = []
    for _ in range(n):
        b = b0()
        c = int(rng.choice(NC, p=b / b.sum()))
        p, g, tot = START, 1.0, 0.0
        for _ in range(steps):
            a = pick(p, b) if pick else choose_one(kind, p, b)
            q, d, r = step(p, c, a)
            tot += g * r
            g *= GAMMA
            o = int(rng.random() < p_obs1(q, d, a))
            if q is None:
                break
            p, b = advance(p, b, a, o)
            c = d
        out.append(tot)
    return np.array(out)


class Session:
    """Reads the transcript of one simulator session and checks every line against the domain."""

    def __init__(self, lines):
        self.l, self.i = lines, 0

    def nxt(self):
        self.i += 1
        return self.l[self.i - 1] if self.i <= len(self.l) else None

    def find(self, start):
        while True:
            x = self.nxt()
            if x is None or start in x:
                return x

    def map(self):
        """-> robot position, c (true rocks), the four displayed probabilities; None: no further map"""
        if self.find("Current map is:") is None:
            return None
        rows = []
        while True:
            x = self.nxt()
            if x is None:
                raise ValueError("unfinished map")
            if x.startswith("Rock probs:"):
                break
            if x.startswith("# "):
                rows.append(x)
        if len(rows) != H:
            raise ValueError("%d map rows" % len(rows))
        pos, marks = None, {}
        for y, row in zip(range(H - 1, -1, -1), rows):
            if len(row) != 2 + 2 * W + 1 or row[-1] != "x":
                raise ValueError("map row " + row)
            for cx in range(W):
                ch, m = row[2 + 2 * cx], row[3 + 2 * cx]
                r = rock_at((cx, y))
                if ch == "*":
                    if pos is not None:
                        raise ValueError("two robots")
                    pos = (cx, y)
                elif ch != (str(r) if r is not None else "."):
                    raise ValueError("cell %s shows %s" % ((cx, y), ch))
                if (r is None) != (m == " ") or m not in " +-":
                    raise ValueError("mark %s at %s" % (m, (cx, y)))
                if r is not None:
                    marks[r] = m == "+"
        if pos is None:
            raise ValueError("no robot on the map")
        c = sum(1 << (3 - r) for r in range(4) if marks[r])
        pr = [float(t.split("=")[1]) for t in x[len("Rock probs:"):].split()]
        return pos, c, pr
