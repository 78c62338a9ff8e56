"""Running zmdp and reading back what it printed and logged."""
import os, re
import numpy as np

from . import build
from .run import zrun
from .check import Violation, Inconclusive

LOGARGS = ["--useLogBackups", "1", "--qValuesOutputFile", "q.log", "--storageOutputFile", "st.log"]


def zmdp(cwd, args, env=None, timeout=60, tree=None):
    t = tree or build.ensure("san")
    return zrun([t.exe()] + list(args), cwd, env=env, timeout=timeout)


def must_end_ok(r, what, files=None):
    """Valid input and options: anything but a normal end within the watchdog is not a verdict here (C10 decides that),
    except that the monitored run gave no logs to judge."""
    if r.timeout:
        raise Inconclusive("watchdog: " + what)
    if not r.ok:
        raise Violation("%s ended abnormally: %s" % (what, r.sig()), r.brief(), files or {})


def bounds_plot(path):
    rows = []
    for line in open(path):
        if line.startswith("#"):
            continue
        f = line.split()
        if len(f) == 7:
            rows.append((float(f[0]), float(f[1]), float(f[2]), int(f[3]), int(f[4]), int(f[5]), int(f[6])))
    return rows


def state_index(path, dim):
    out = {}
    cur = None
    for line in open(path):
        f = line.split()
        if not f or line.startswith("#"):
            continue
        if f[0] == "state":
            cur = np.zeros(dim)
            out[int(f[1])] = cur
        elif len(f) == 2 and cur is not None:
            i = int(f[0])
            if i < 0 or i >= dim:
                raise Violation("stateIndex entry names a component that does not exist", line)
            cur[i] = float(f[1])
    return out


def id_values(path, nk, nv):
    out = {}
    for line in open(path):
        f = line.split()
        if not f or line.startswith("#"):
            continue
        k = tuple(int(x) for x in f[:nk])
        out[k[0] if nk == 1 else k] = tuple(float(x) for x in f[nk:nk + nv])
    return out


def backups(path):
    return [int(l) for l in open(path) if l.strip() and not l.startswith("#")]


BL = re.compile(r"^(-?\d+)\s+(\d+) calls to solver, bounds \[\s*(\S+) \.\.\s*(\S+)\], regret <= (\S+)", re.M)


def solve_lines(out):
    return [(int(a), int(b), float(c), float(d), float(e)) for a, b, c, d, e in BL.findall(out)]


def read_policy(path):
    """Independent reader of the written maxPlanes policy: list of (action, {state: value})."""
    planes = []
    act, ent = None, None
    txt = open(path).read()
    body = "\n".join(l for l in txt.split("\n") if not l.lstrip().startswith("#"))
    m = re.search(r"numPlanes => (\d+)", body)
    n = int(m.group(1)) if m else -1
    for mm in re.finditer(r"action => (-?\d+),\s*numEntries => (\d+),\s*entries => \[([^\]]*)\]", body):
        nums = re.findall(r"(-?\d+),\s*([-+0-9.eEinfa]+)", mm.group(3))
        d = {int(i): float(v) for i, v in nums}
        planes.append((int(mm.group(1)), d, int(mm.group(2))))
    return n, planes, body


class PolicyFile:
    """maxPlanes semantics as the file's own header comment states them."""

    def __init__(self, planes, nS):
        self.act = [p[0] for p in planes]
        self.A = np.array([[p[1].get(i, 0.0) for i in range(nS)] for p in planes])
        self.M = np.array([[i in p[1] for i in range(nS)] for p in planes])

    def applicable(self, b, tol=0.0):
        nz = b > tol
        return ~((nz[None, :] & ~self.M).any(1))

    def best(self, b, tol=1e-10):
        ok = self.applicable(b, tol)
        if not ok.any():
            return None
        v = np.where(ok, self.A @ b, -np.inf)
        i = int(np.argmax(v))
        return self.act[i], float(v[i])


def sim_traces(path):
    """list of traces; each is a list of (dict state, action, dict state', outcome) plus flag terminated"""
    traces = []
    cur = None
    rx = re.compile(r"^sim: \[(.*?)\] (-?\d+) \[(.*?)\] (-?\d+)")

    def vec(s):
        d = {}
        if s.startswith("(no"):
            return d
        for tok in s.split():
            i, v = tok.split(":")
            d[int(i)] = float(v)
        return d
    for line in open(path):
        if line.startswith(">>> begin"):
            cur = {"steps": [], "terminated": False}
            traces.append(cur)
        elif line.startswith("terminated"):
            cur["terminated"] = True
        else:
            m = rx.match(line)
            if m:
                cur["steps"].append((vec(m.group(1)), int(m.group(2)), vec(m.group(3)), int(m.group(4))))
    return traces
