"""Random model files in Cassandra's format, with the model each denotes (computed from the format's documentation)."""
import numpy as np

NAMES = ["s1", "s10", "s100", "S1", "a", "A", "left", "left-left", "left_left", "matrix", "uniform1", "startx", "e5", "E",
         "Tt", "Rr", "obs", "x" * 45, "b-", "c_", "d-1-2", "goal", "hole", "rewards", "costs", "T1", "O1", "R1", "z9Z",
         "include_", "exclude2", "nan", "inf", "q", "w", "ee", "E10", "e-5", "one", "two", "three", "four"]


class Text:
    """token stream with free layout"""

    def __init__(self, rng, wild):
        self.rng, self.wild, self.out = rng, wild, []

    def sp(self, must=True):
        r = self.rng.random()
        if not self.wild:
            return " " if must else ""
        if r < 0.70:
            return " " if must or r < 0.4 else ""
        if r < 0.8:
            return "\t"
        if r < 0.9:
            return "\n"
        if r < 0.94:
            return "\r\n"
        if r < 0.97:
            return " # T: * uniform : 3 \"quoted\" \x7f\n"
        return "   \n\n \t"

    def add(self, *toks):
        for t in toks:
            if t == ":":
                self.out.append(self.sp(False) + ":" + self.sp(False))
            elif t == "\n":
                self.out.append("\n")
            else:
                self.out.append((" " if not self.wild else self.sp(True)) + str(t))

    def text(self):
        return "".join(self.out) + ("\n" if self.rng.random() < 0.9 else "")


def num(rng, x, signed=False):
    """a spelling of x and the value it denotes"""
    s = ""
    if signed:
        if x < 0:
            s = "-" if rng.random() < 0.7 else "- "
        elif rng.random() < 0.2:
            s = "+" if rng.random() < 0.5 else "+ "
    v = abs(x)
    r = rng.random()
    if v == int(v) and v < 1e6 and r < 0.5:
        t = "%d" % int(v)
        if rng.random() < 0.1:
            t = "0" * int(rng.integers(1, 3)) + t
    elif v == int(v) and v < 1e6 and r < 0.6:
        t = "%d." % int(v)
    elif r < 0.7:
        t = "%.17g" % v
    elif r < 0.8:
        t = "%.16e" % v
    elif r < 0.9:
        t = ("%.16e" % v).replace("e", "E")
    else:
        t = "%.20f" % v if v > 1e-3 or v == 0 else "%.17g" % v
    val = float(t)
    return s + t, (-val if x < 0 else val)


def fmt(x):
    return "%.17g" % x


def dist(rng, n):
    """a probability row; sometimes degenerate or with tiny entries"""
    r = rng.random()
    if r < 0.2:
        p = np.zeros(n)
        p[rng.integers(n)] = 1
        return p
    if r < 0.35:
        k = int(rng.integers(1, n + 1))
        p = np.zeros(n)
        p[rng.choice(n, k, replace=False)] = 1.0 / k
        return p
    p = rng.random(n) ** 3
    if r < 0.6:
        p[rng.random(n) < 0.5] = 0
    if p.sum() <= 0:
        p[rng.integers(n)] = 1
    p /= p.sum()
    if r > 0.95 and n > 1:
        i, j = rng.choice(n, 2, replace=False)
        p = np.zeros(n)
        p[i], p[j] = 1 - 1e-6, 1e-6
    return p


def rew(rng):
    r = rng.random()
    if r < 0.25:
        return 0.0
    if r < 0.6:
        return float(rng.integers(-20, 21))
    if r < 0.65:
        return float(rng.choice([1e6, -1e6, 1e-3, -2.5e-4]))
    return float(rng.normal() * 5)


class Gen:
    """One file: .text, .kind and reference tensors T[a,s,t], O[a,t,o], ER[s,a], b0 or s0, discount."""

    def __init__(self, rng, kind, big=False):
        self.rng, self.kind = rng, kind
        pomdp = self.pomdp = kind == "pomdp"
        hi = 14 if big else 7
        S, A, O = (int(rng.integers(1, hi)), int(rng.integers(1, 5)), int(rng.integers(1, 6)))
        self.nS, self.nA, self.nO = S, A, O
        self.features = set()
        w = self.w = Text(rng, rng.random() < 0.5)
        self.names = {}
        pool = list(NAMES)
        for k, n in (("s", S), ("a", A), ("o", O)):
            self.names[k] = None
            if rng.random() < 0.5:
                # the same name may be used for a state, an action and an observation
                self.names[k] = [str(x) for x in rng.choice(pool, n, replace=False)]
                self.features.add("names:" + k)
        self.T = np.zeros((A, S, S))
        # what is left of the statements when 'reset' in an MDP keeps the earlier entries of its rows (a known finding)
        self.Tkept = np.zeros((A, S, S))
        self.O = np.zeros((A, S, O))
        self.r = np.zeros((A, S, S, O if pomdp else 1))
        # digits to which the file's probabilities are rounded (rows then miss 1 by less than the parser's tolerance)
        self.digits = int(rng.integers(6, 9)) if rng.random() < 0.2 else None
        self.preamble()
        self.start()
        self.body()
        self.finish()
        self.text = self.w.text()

    def ref(self, k, i):
        if i is None:
            return "*"
        if self.names[k] and self.rng.random() < 0.6:
            return self.names[k][i]
        return str(i)

    def nm(self, x, signed=False):
        return num(self.rng, x, signed)

    def preamble(self):
        rng, w = self.rng, self.w
        self.discount = float(rng.choice([0.0, 1.0, 0.5, 0.95, 0.999, float(rng.random())]))
        self.cost = bool(rng.random() < 0.3)
        if self.cost:
            self.features.add("cost")
        order = ["d", "v", "s", "a"] + (["o"] if self.pomdp else [])
        rng.shuffle(order)
        if rng.random() < 0.3:
            w.out.append("# a comment: states: 3\n\n")
        for k in order:
            if k == "d":
                t, self.discount = self.nm(self.discount)
                w.add("discount", ":", t, "\n")
            elif k == "v":
                w.add("values", ":", "cost" if self.cost else "reward", "\n")
            else:
                n = {"s": self.nS, "a": self.nA, "o": self.nO}[k]
                w.add({"s": "states", "a": "actions", "o": "observations"}[k], ":")
                w.add(*(self.names[k] or [str(n)]))
                w.add("\n")

    def start(self):
        rng, w, S = self.rng, self.w, self.nS
        if not self.pomdp:
            self.s0 = int(rng.integers(S))
            w.add("start", ":")
            w.add(self.ref("s", self.s0), "\n")
            return
        k = rng.integers(6)
        self.b0 = np.ones(S) / S
        if k == 0:
            self.features.add("start:omitted")
            return
        if k == 1:
            w.add("start", ":", "uniform", "\n")
            self.features.add("start:uniform")
            return
        if k == 2 and self.names["s"]:
            i = int(rng.integers(S))
            self.b0 = np.eye(S)[i]
            w.add("start", ":", self.names["s"][i], "\n")
            self.features.add("start:name")
            return
        if k in (3, 4):
            ls = [int(x) for x in rng.choice(S, int(rng.integers(1, S + 1)))]
            b = np.zeros(S)
            b[ls] = 1
            if k == 4:
                b = 1 - b
                if b.sum() == 0:
                    ls = ls[:1]
                    b = np.ones(S)
                    b[ls] = 0
            if b.sum() > 0:
                self.b0 = b / b.sum()
                w.add("start", "include" if k == 3 else "exclude", ":")
                w.add(*[self.ref("s", i) for i in ls])
                w.add("\n")
                self.features.add("start:include" if k == 3 else "start:exclude")
                return
        p = self.dist(S)
        w.add("start", ":")
        b = np.zeros(S)
        for i in range(S):
            t, b[i] = self.nm(p[i])
            w.add(t)
        w.add("\n")
        self.b0 = b
        self.features.add("start:list")

    # ---- statements; each applies itself to the tensors
    def pick(self, n, wild=0.25):
        return None if self.rng.random() < wild else int(self.rng.integers(n))

    @staticmethod
    def sl(i):
        return slice(None) if i is None else slice(i, i + 1)

    def set_t(self, i, v):
        self.T[i] = v
        self.Tkept[i] = v

    def t_single(self, a, s, t, p):
        txt, v = self.nm(p)
        self.w.add("T", ":", self.ref("a", a), ":", self.ref("s", s), ":", self.ref("s", t), txt, "\n")
        self.set_t((self.sl(a), self.sl(s), self.sl(t)), v)
        self.features.add("T:single" + ("*" if None in (a, s, t) else ""))

    def t_row(self, a, s, p):
        self.w.add("T", ":", self.ref("a", a), ":", self.ref("s", s))
        self.w.add("\n")
        for t in range(self.nS):
            txt, v = self.nm(p[t])
            self.w.add(txt)
            self.set_t((self.sl(a), self.sl(s), t), v)
        self.w.add("\n")
        self.features.add("T:row" + ("*" if None in (a, s) else ""))

    def t_row_kw(self, a, s, kw):
        self.w.add("T", ":", self.ref("a", a), ":", self.ref("s", s), kw, "\n")
        S = self.nS
        if kw == "uniform":
            row = np.ones(S) / S
        elif self.pomdp:
            row = self.b0
        else:
            row = np.eye(S)[self.s0]
        i = (self.sl(a), self.sl(s))
        if kw == "reset" and not self.pomdp:
            self.T[i] = row
            self.Tkept[i + (self.s0,)] = 1
        else:
            self.set_t(i, row)
        self.features.add("T:row:" + kw)

    def t_all(self, a, kind, M=None):
        self.w.add("T", ":", self.ref("a", a))
        S = self.nS
        if kind == "matrix":
            self.w.add("\n")
            V = np.zeros((S, S))
            for s in range(S):
                for t in range(S):
                    txt, V[s, t] = self.nm(M[s, t])
                    self.w.add(txt)
                self.w.add("\n")
            self.set_t(self.sl(a), V)
        else:
            self.w.add(kind, "\n")
            self.set_t(self.sl(a), np.eye(S) if kind == "identity" else np.ones((S, S)) / S)
        self.features.add("T:all:" + kind + ("*" if a is None else ""))

    def o_single(self, a, t, o, p):
        txt, v = self.nm(p)
        self.w.add("O", ":", self.ref("a", a), ":", self.ref("s", t), ":", self.ref("o", o), txt, "\n")
        self.O[self.sl(a), self.sl(t), self.sl(o)] = v
        self.features.add("O:single" + ("*" if None in (a, t, o) else ""))

    def o_row(self, a, t, p):
        self.w.add("O", ":", self.ref("a", a), ":", self.ref("s", t))
        self.w.add("\n")
        for o in range(self.nO):
            txt, v = self.nm(p[o])
            self.w.add(txt)
            self.O[self.sl(a), self.sl(t), o] = v
        self.w.add("\n")
        self.features.add("O:row" + ("*" if None in (a, t) else ""))

    def o_row_kw(self, a, t):
        self.w.add("O", ":", self.ref("a", a), ":", self.ref("s", t), "uniform", "\n")
        self.O[self.sl(a), self.sl(t)] = 1.0 / self.nO
        self.features.add("O:row:uniform")

    def o_all(self, a, M):
        self.w.add("O", ":", self.ref("a", a))
        if M is None:
            self.w.add("uniform", "\n")
            self.O[self.sl(a)] = 1.0 / self.nO
            self.features.add("O:all:uniform")
            return
        self.w.add("\n")
        V = np.zeros((self.nS, self.nO))
        for t in range(self.nS):
            for o in range(self.nO):
                txt, V[t, o] = self.nm(M[t, o])
                self.w.add(txt)
            self.w.add("\n")
        self.O[self.sl(a)] = V
        self.features.add("O:all:matrix" + ("*" if a is None else ""))

    def r_stmt(self):
        rng, w = self.rng, self.w
        S, O = self.nS, self.nO
        a = self.pick(self.nA)
        w.add("R", ":", self.ref("a", a))
        k = rng.integers(4 if not self.pomdp else 3)
        if self.pomdp:
            s = self.pick(S)
            w.add(":", self.ref("s", s))
            if k == 0:
                t, o = self.pick(S, 0.5), self.pick(O, 0.5)
                txt, v = self.nm(rew(rng), True)
                w.add(":", self.ref("s", t), ":", self.ref("o", o), txt)
                self.r[self.sl(a), self.sl(s), self.sl(t), self.sl(o)] = v
                self.features.add("R:single")
            elif k == 1:
                t = self.pick(S, 0.4)
                w.add(":", self.ref("s", t), "\n")
                V = np.zeros(O)
                for o in range(O):
                    txt, V[o] = self.nm(rew(rng), True)
                    w.add(txt)
                self.r[self.sl(a), self.sl(s), self.sl(t), :] = V
                self.features.add("R:row")
            else:
                w.add("\n")
                V = np.zeros((S, O))
                for t in range(S):
                    for o in range(O):
                        txt, V[t, o] = self.nm(rew(rng), True)
                        w.add(txt)
                    w.add("\n")
                self.r[self.sl(a), self.sl(s)] = V
                self.features.add("R:matrix")
        else:
            if k == 3:
                w.add("\n")
                V = np.zeros((S, S))
                for s in range(S):
                    for t in range(S):
                        txt, V[s, t] = self.nm(rew(rng), True)
                        w.add(txt)
                    w.add("\n")
                self.r[self.sl(a), :, :, 0] = V
                self.features.add("R:mdpmatrix")
            else:
                s = self.pick(S)
                w.add(":", self.ref("s", s))
                if k == 2:
                    w.add("\n")
                    V = np.zeros(S)
                    for t in range(S):
                        txt, V[t] = self.nm(rew(rng), True)
                        w.add(txt)
                    self.r[self.sl(a), self.sl(s), :, 0] = V
                    self.features.add("R:mdprow")
                else:
                    t = self.pick(S, 0.5)
                    txt, v = self.nm(rew(rng), True)
                    w.add(":", self.ref("s", t), txt)
                    self.r[self.sl(a), self.sl(s), self.sl(t), 0] = v
                    self.features.add("R:mdpsingle")
        w.add("\n")

    def body(self):
        rng = self.rng
        S, A, O = self.nS, self.nA, self.nO
        noise = []
        for _ in range(int(rng.integers(0, 8))):
            k = int(rng.integers(6))
            if k == 0:
                noise.append(lambda: self.t_single(self.pick(A), self.pick(S), self.pick(S), float(rng.random())))
            elif k == 1:
                noise.append(lambda: self.t_row(self.pick(A), self.pick(S), rng.random(S)))
            elif k == 2:
                noise.append(lambda: self.t_all(self.pick(A), str(rng.choice(["uniform", "identity", "matrix"])), rng.random((S, S))))
            elif self.pomdp:
                if k == 3:
                    noise.append(lambda: self.o_single(self.pick(A), self.pick(S), self.pick(O), float(rng.random())))
                elif k == 4:
                    noise.append(lambda: self.o_row(self.pick(A), self.pick(S), rng.random(O)))
                else:
                    noise.append(lambda: self.o_all(self.pick(A), rng.random((S, O)) if rng.random() < 0.5 else None))
        cover_t = []
        style = rng.integers(4)
        for a in ([None] if style == 0 else range(A)):
            k = rng.integers(5)
            if k == 0:
                cover_t.append(lambda a=a: self.t_all(a, "uniform"))
            elif k == 1:
                cover_t.append(lambda a=a: self.t_all(a, "identity"))
            elif k == 2:
                cover_t.append(lambda a=a: self.t_all(a, "matrix", np.array([self.dist(S) for _ in range(S)])))
            else:
                cover_t += self.rows_t(a)
        cover_o = []
        if self.pomdp:
            for a in ([None] if rng.random() < 0.25 else range(A)):
                k = rng.integers(4)
                if k == 0:
                    cover_o.append(lambda a=a: self.o_all(a, None))
                elif k == 1:
                    cover_o.append(lambda a=a: self.o_all(a, np.array([self.dist(O) for _ in range(S)])))
                else:
                    cover_o += self.rows_o(a)
        # row-preserving amendments afterwards
        amend = []
        for _ in range(int(rng.integers(0, 4))):
            amend += self.row_amend()
        rs = [self.r_stmt] * int(rng.integers(0, 9))
        t_stmts, o_stmts = cover_t, cover_o
        seq = noise[:]
        tail = t_stmts + o_stmts
        if rng.random() < 0.5:
            # keep the order within the T and O statements, interleave the kinds
            m = []
            ti, oi = list(t_stmts), list(o_stmts)
            while ti or oi:
                m.append((ti if (ti and (not oi or rng.random() < 0.5)) else oi).pop(0))
            tail = m
        seq += tail + amend
        for r in rs:
            seq.insert(int(rng.integers(0, len(seq) + 1)), r)
        for f in seq:
            f()

    def rows_t(self, a):
        rng, S = self.rng, self.nS
        out = []
        if rng.random() < 0.2:
            out.append(lambda: self.t_row(a, None, self.dist(S)))
        else:
            for s in rng.permutation(S):
                s = int(s)
                k = rng.integers(5)
                if k == 0:
                    out.append(lambda s=s: self.t_row_kw(a, s, "uniform"))
                elif k == 1:
                    out.append(lambda s=s: self.t_row_kw(a, s, "reset"))
                elif k == 2:
                    out.append(lambda s=s: self.t_row(a, s, self.dist(S)))
                else:
                    def f(s=s):
                        p = self.dist(S)
                        if rng.random() < 0.4:
                            self.t_single(a, s, None, 0.0)
                            idx = [t for t in rng.permutation(S) if p[t] > 0]
                        else:
                            idx = list(rng.permutation(S))
                        for t in idx:
                            self.t_single(a, s, int(t), float(p[t]))
                    out.append(f)
        return out

    def rows_o(self, a):
        rng, S, O = self.rng, self.nS, self.nO
        out = []
        if rng.random() < 0.2:
            out.append(lambda: self.o_row(a, None, self.dist(O)))
        else:
            for t in rng.permutation(S):
                t = int(t)
                k = rng.integers(4)
                if k == 0:
                    out.append(lambda t=t: self.o_row_kw(a, t))
                elif k == 1:
                    out.append(lambda t=t: self.o_row(a, t, self.dist(O)))
                else:
                    def f(t=t):
                        p = self.dist(O)
                        if rng.random() < 0.4:
                            self.o_single(a, t, None, 0.0)
                            idx = [o for o in rng.permutation(O) if p[o] > 0]
                        else:
                            idx = list(rng.permutation(O))
                        for o in idx:
                            self.o_single(a, t, int(o), float(p[o]))
                    out.append(f)
        return out

    def row_amend(self):
        rng = self.rng
        a, s = int(rng.integers(self.nA)), int(rng.integers(self.nS))
        if rng.random() < 0.5 or not self.pomdp:
            return [lambda: self.t_row(a, s, self.dist(self.nS))]
        return [lambda: self.o_row(a, s, self.dist(self.nO))]

    def dist(self, n):
        p = dist(self.rng, n)
        if self.digits:
            self.features.add("rounded")
            q = p.round(self.digits)
            if abs(q.sum() - 1) < 9e-6:
                p = q
        return p

    def finish(self):
        P = np.einsum("ast,ato->asto", self.T, self.O) if self.pomdp else self.T[..., None]
        self.ER = np.einsum("asto,asto->sa", P, self.r) * (-1 if self.cost else 1)
        self.rscale = 1 + np.abs(self.r).max()
        if self.digits and self.rows_ok():
            # rounded distributions are normalized
            for M in [self.T] + ([self.O] if self.pomdp else []):
                x = M.sum(-1, keepdims=True)
                M /= np.where(np.abs(x - 1) > 1e-10, x, 1)
            if self.pomdp and abs(self.b0.sum() - 1) > 1e-10:
                self.b0 = self.b0 / self.b0.sum()

    def rows_ok(self):
        ok = np.all(np.abs(self.T.sum(2) - 1) < 1.0e-5)
        if self.pomdp:
            ok = ok and np.all(np.abs(self.O.sum(2) - 1) < 1.0e-5) and abs(self.b0.sum() - 1) < 1.0e-5
        return bool(ok)


def parse_dump(out):
    """the probe's output as a dict, or None when it did not finish"""
    if "BEGIN\n" not in out or not out.rstrip().endswith("END"):
        return None
    d = {}
    cur = None
    for line in out[out.index("BEGIN\n") + 6:].split("\n"):
        f = line.split()
        if not f or f[0] == "END":
            continue
        if f[0] == "M":
            cur = (f[1], int(f[2]))
            sh = (int(f[3]), int(f[4]))
            d[cur] = {"A": np.zeros(sh), "C": np.zeros(sh)}
        elif f[0] in "AC" and len(f[0]) == 1:
            d[cur][f[0]][int(f[1]), int(f[2])] = float(f[3])
        else:
            d[f[0]] = [float(x) for x in f[1:]]
    return d


def compare(d, kind, nS, nA, nO, T, O, ER, start, discount, rscale, tol=1e-9, rtol=None):
    """first difference between a dump and the reference, or None"""
    if d["discount"][0] != discount:
        return "discount", "%r vs reference %r" % (d["discount"][0], discount)
    want = [nS, nA, nO if kind == "pomdp" else -1]
    if d["sizes"] != want:
        return "sizes", "%r vs reference %r" % (d["sizes"], want)
    if kind == "pomdp":
        b = np.array(d["b0"][1:])
        if len(b) != nS or np.abs(b - start).max() > tol:
            return "start distribution", "%r vs reference %r" % (b.tolist(), list(start))
    elif d["s0"] != [1, start]:
        return "start state", "%r vs reference %r" % (d["s0"], start)

    def m(name, a, ref, t):
        x = d.get((name, a))
        if x is None:
            return "missing matrix " + name, str(a)
        for via in "AC":
            if x[via].shape != ref.shape:
                return "shape of " + name, "%r vs %r" % (x[via].shape, ref.shape)
            e = np.abs(x[via] - ref)
            if e.size and e.max() > t:
                i = np.unravel_index(e.argmax(), e.shape)
                return name + " entry", "%s[a=%d]%r (%s) is %.17g, reference %.17g" % (
                    name, a, tuple(int(k) for k in i), "accessor" if via == "A" else "column", x[via][i], ref[i])
        return None
    for a in range(nA):
        for r in (m("T", a, T[a], tol), m("Ttr", a, T[a].T, tol)) + ((m("O", a, O[a], tol),) if kind == "pomdp" else ()):
            if r:
                return r
    r = m("R", 0, ER, (rtol or tol) * rscale)
    if r:
        return r
    if len(d["term"]) != nS:
        return "terminal flags", "length %d" % len(d["term"])
    for s in range(nS):
        st, rr = np.abs(1 - T[:, s, s]).max(), np.abs(ER[s]).max()
        if st < 1e-13 and rr < 1e-13:
            want = 1
        elif st > 1e-8 or rr > 1e-8:
            want = 0
        else:
            continue
        if d["term"][s] != want:
            return "terminal flag", "state %d: %d, reference %d" % (s, d["term"][s], want)
    return None
