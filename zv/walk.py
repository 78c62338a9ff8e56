"""Runs the modelwalk probe and reads its dump."""
import os
import numpy as np
from . import build
from .check import Violation
from .run import zrun

_cfg = {}


def config_text(extra=""):
    """default configuration, from the program itself, plus overrides"""
    exe = build.ensure("san").exe()
    if exe not in _cfg:
        from .run import Scratch
        with Scratch() as d:
            r = zrun([exe, "--genConfig", "c.config"], d, timeout=60)
            try:
                _cfg[exe] = open(os.path.join(d, "c.config")).read()
            except OSError:
                raise Violation("the default configuration could not be generated", r.brief(), {})
    return _cfg[exe] + "\n" + extra + "\n"


class Dump:
    """.discount .nA .states {id: dense vector} .exp {id: (terminal, {a: (reward, nOut, [(o, p, succ id)])})}"""

    def __init__(self, text):
        self.states, self.exp, self.complete = {}, {}, False
        cur = act = None
        for l in text.splitlines():
            w = l.split()
            if not w:
                continue
            if w[0] == "MODEL":
                self.dim, self.nA, self.discount = int(w[2]), int(w[4]), float(w[6])
            elif w[0] == "STATE":
                v = np.zeros(int(w[2]))
                for x in w[3:]:
                    i, y = x.split(":")
                    v[int(i)] = float(y)
                self.states[int(w[1])] = v
            elif w[0] == "EXP":
                cur = {}
                self.exp[int(w[1])] = (bool(int(w[2])), cur)
            elif w[0] == "ACT":
                act = []
                cur[int(w[1])] = (float(w[2]), int(w[3]), act)
            elif w[0] == "OUT":
                act.append((int(w[1]), float(w[2]), int(w[3])))
            elif w[0] == "END":
                self.complete = True


def walk(d, kind, fname, seed, nmax, mode, extra="", files=None, timeout=120):
    with open(os.path.join(d, "walk.config"), "w") as f:
        f.write(config_text(extra))
    r = zrun([build.ensure("san").probe("modelwalk"), kind, fname, "walk.config", str(seed), str(nmax), mode], d,
             timeout=timeout)
    if r.oom:
        from .check import Inconclusive
        raise Inconclusive("out of memory")
    if r.san or r.timeout or r.rc not in (0, 1):
        raise Violation("model crashed: " + r.sig(), r.brief(), files or {})
    return r
