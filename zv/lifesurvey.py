"""Survey maps and the survey domain's rules, re-implemented from the description in the sources' comments."""
import math
import numpy as np

DIRS = ((1, 1), (1, 0), (0, -1))  # NE, E, SE
LEVEL = (0, 5, 20, 50)


class Map:
    """cells: {(x, y): region}; y counts from the bottom row."""

    def __init__(self, rows, start, base, look, priors, absent, present):
        self.rows, self.start, self.base, self.look, self.priors = rows, start, base, look, priors
        self.absent = np.array(absent) / sum(absent)
        self.present = np.array(present) / sum(present)
        self.raw = (absent, present)
        self.cells = {}
        self.h = len(rows)
        for y0, row in enumerate(rows):
            y = self.h - 1 - y0
            for col, ch in enumerate(row):
                if ch not in " \n":
                    self.cells[((col + y) // 2, y)] = ord(ch) - 97
        self.targets = None
        self._reach = {}

    def exit(self, p):
        return not any(q[1] == p[1] and q[0] > p[0] for q in self.cells)

    def prior(self, p):
        if p not in self.cells:
            return 0.0
        if self.targets is not None:
            return 1.0 if p in self.targets else 0.0
        return self.priors[self.cells[p]]

    def reach(self, p):
        """regions with a cell that can be reached from p (p included), whatever the last move"""
        if p not in self._reach:
            seen, todo = {p}, [p]
            while todo:
                q = todo.pop()
                for d in DIRS:
                    n = (q[0] + d[0], q[1] + d[1])
                    if n in self.cells and n not in seen:
                        seen.add(n)
                        todo.append(n)
            self._reach[p] = {self.cells[q] for q in seen}
        return self._reach[p]

    def legal(self, p, last, d):
        n = (p[0] + DIRS[d][0], p[1] + DIRS[d][1])
        return n in self.cells and {last, d} != {0, 2}

    def text(self, rng=None):
        f = (lambda v: "%r" % v)
        lines = [("startX", str(self.start[0])), ("startY", str(self.start[1])), ("baseCost", f(self.base)), ("lookaheadCost", f(self.look)),
                 ("regionPriors", " ".join(map(f, self.priors))), ("obsDistributionLifeAbsent", " ".join(map(f, self.raw[0]))),
                 ("obsDistributionLifePresent", " ".join(map(f, self.raw[1])))]
        sep, extra, dash = " ", [], "---"
        if rng is not None:
            lines = [lines[i] for i in rng.permutation(7)]
            sep = [" ", "   ", "\t"][int(rng.integers(3))]
            if rng.random() < 0.3:
                extra = ["# a comment", "#"]
            if rng.random() < 0.3:
                extra = extra + [""]
            dash = ["---", "-", "-- map"][int(rng.integers(3))]
        out = []
        for k, v in lines:
            if extra and rng.random() < 0.5:
                out.append(extra[int(rng.integers(len(extra)))])
            tail = ""
            if rng is not None and rng.random() < 0.2:
                tail = [" ", "\t", "  "][int(rng.integers(3))]
            out.append(k + sep + v.replace(" ", " " if rng is None or rng.random() < 0.8 else "  ") + tail)
        body = "\n".join(self.rows)
        return "\n".join(out) + "\n" + dash + "\n" + body + ("\n" if rng is None or rng.random() < 0.8 else "")

    # --- dynamics; a state is (x, y, last, used, (n0, n1, n2), levels) or None when terminal
    def enter(self, p, last, old_e, levels):
        """distribution over states after moving to p"""
        np_ = [self.prior((p[0] + d[0], p[1] + d[1])) for d in DIRS]
        if last == 0:
            np_[2] = float(old_e)
        if last == 2:
            np_[0] = float(old_e)
        out = {}
        for i in range(8):
            n = ((i >> 2) & 1, (i >> 1) & 1, i & 1)
            q = math.prod(np_[j] if n[j] else 1 - np_[j] for j in range(3))
            if q:
                out[(p[0], p[1], last, 0, n, levels)] = q
        return out

    def initial(self):
        lv = [0] * len(self.priors)
        lv[self.cells[self.start]] = 1
        if self.exit(self.start):
            return {None: 1.0}
        return self.enter(self.start, 1, 0, tuple(lv))

    def step(self, s, a):
        """(distribution over next states, reward, legal)"""
        if s is None:
            return {None: 1.0}, 0.0, True
        x, y, last, used, n, lv = s
        if a == 6:
            if used:
                return {s: 1.0}, -100.0, False
            return {(x, y, last, 1, n, lv): 1.0}, -self.look * self.base, True
        d, sample = a % 3, a // 3
        if not self.legal((x, y), last, d):
            return {s: 1.0}, -100.0, False
        p = (x + DIRS[d][0], y + DIRS[d][1])
        r = self.cells[p]
        new = (3 if sample else 2) if n[d] else 1
        gain = max(0, LEVEL[new] - LEVEL[lv[r]])
        lv2 = list(lv)
        lv2[r] = max(new, lv[r])
        rew = gain - (5 if sample else 1) * self.base
        if self.exit(p):
            return {None: 1.0}, rew, True
        return self.enter(p, d, n[1], tuple(lv2)), rew, True

    def observe(self, s, a):
        """distribution over observation numbers"""
        if s is None or a != 6:
            return {27: 1.0}
        out = {}
        for o in range(27):
            c = (o // 9, o // 3 % 3, o % 3)
            q = math.prod((self.present if s[4][j] else self.absent)[c[j]] for j in range(3))
            if q > 0:
                out[o] = q
        return out

    def canon(self, s):
        """reward levels of regions that can no longer be reached do not matter"""
        if s is None:
            return None
        ok = self.reach((s[0], s[1]))
        return s[:5] + (tuple(l if r in ok else 9 for r, l in enumerate(s[5])),)

    def path_value(self, path):
        """expected number of regions in which a forward cell of the path holds life; None if it is not a legal complete path"""
        if not path or path[0] != self.start:
            return None
        last, count, p = 1, [0] * len(self.priors), path[0]
        for i, p in enumerate(path):
            if i:
                q = path[i - 1]
                d = (p[0] - q[0], p[1] - q[1])
                if d not in DIRS or not self.legal(q, last, DIRS.index(d)) or self.exit(q):
                    return None
                last = DIRS.index(d)
            for d in range(3):
                if self.legal(p, last, d):
                    count[self.cells[(p[0] + DIRS[d][0], p[1] + DIRS[d][1])]] += 1
        if not self.exit(p):
            return None
        return sum(1 - (1 - q) ** n for q, n in zip(self.priors, count))

    def best_path_value(self, limit=200000):
        """maximum of path_value; None when there is no complete path, and 'large' beyond the limit"""
        best, todo, seen = None, [(self.start, 1, (0,) * len(self.priors))], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if len(seen) > limit:
                return "large"
            p, last, count = t
            c = list(count)
            nx = []
            for d in range(3):
                if self.legal(p, last, d):
                    q = (p[0] + DIRS[d][0], p[1] + DIRS[d][1])
                    c[self.cells[q]] += 1
                    nx.append((q, d))
            if self.exit(p):
                v = sum(1 - (1 - q) ** n for q, n in zip(self.priors, c))
                best = v if best is None else max(best, v)
            else:
                todo += [(q, d, tuple(c)) for q, d in nx]
        return best


def random_map(rng, size=1.0):
    h = int(rng.choice([1, 3, 3, 3, 5] if size < 2 else [3, 5, 7]))
    k = int(rng.integers(1, 5))
    w = int(rng.integers(1, max(3, int((7 if h == 1 else 5 if h == 3 else 4) * size)) + 1))
    if h == 1 and rng.random() < 0.2:
        k = int(rng.integers(5, 13))
        w = k
    obst = float(rng.choice([0, 0.1, 0.3]))
    uniform = rng.random() < 0.3
    rows = []
    for y0 in range(h):
        n = max(1, w - y0 % 2 - int(rng.integers(0, 2) * (rng.random() < 0.3)))
        chars = []
        for i in range(n):
            if rng.random() < obst:
                chars.append(" ")
            else:
                r = min(k - 1, i * k // max(1, n)) if uniform else int(rng.integers(k))
                chars.append(chr(97 + r))
        rows.append((" " if y0 % 2 else "") + " ".join(chars))
    for i, r in enumerate(rows):  # an empty line would end the map
        if not r.strip():
            rows[i] = (" a" if i % 2 else "a") + r[2:]
    rows = [r.rstrip() if rng.random() < 0.5 else r for r in rows]
    m = Map(rows, (0, 0), 1.0, 5.0, [0.5], [1, 0, 0], [0, 0, 1])
    n = max(m.cells.values()) + 1
    left = sorted(m.cells)
    start = left[int(rng.integers(min(len(left), 3)))] if rng.random() < 0.8 else left[int(rng.integers(len(left)))]
    pri = [float(rng.choice([0, 1, 0.5, 0.1, round(rng.random(), 3)])) for _ in range(n)]

    def obs():
        v = [float(rng.choice([0, 1, 2, 9, 42, round(rng.random(), 2)])) for _ in range(3)]
        return v if sum(v) > 0 else [1.0, 2.0, 3.0]
    return Map(rows, start, float(rng.choice([1, 1, 0.5, 5, 0])), float(rng.choice([5, 1, 0.25, 0])), pri, obs(), obs())


def read_full(text):
    """A generated model with full identifiers: names, start, T, O, R as dictionaries."""
    names = acts = obs = None
    T, O, R, start, disc = {}, {}, {}, None, None
    for line in text.split("\n"):
        f = line.split()
        if not f:
            continue
        if f[0] == "T:":
            k = (f[1], f[3])
            T.setdefault(k, {})
            if f[5] in T[k]:
                raise ValueError("outcome listed twice: " + line)
            T[k][f[5]] = float(f[6])
        elif f[0] == "O:":
            O.setdefault((f[1], f[3]), {})[f[5]] = float(f[6])
        elif f[0] == "R:":
            R[(f[1], f[3])] = float(f[8])
        elif f[0] == "discount:":
            disc = float(f[1])
        elif f[0] == "states:":
            names = f[1:]
        elif f[0] == "actions:":
            acts = f[1:]
        elif f[0] == "observations:":
            obs = f[1:]
        elif f[0] == "start:":
            start = [float(x) for x in f[1:]]
    return names, acts, obs, start, disc, T, O, R
