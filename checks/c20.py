"""C20: a crash while benchmarking never leaves the user without a whole policy."""
import os, re
import numpy as np
from zv import logs, workload, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch
from checks.c05 import judge_policy

N = 1500 if THOROUGH else 300
KILLS = 30 if THOROUGH else 12
NAMES = ["o.policy", "p", "sub/o.policy", "a;b.policy", "a$(x).policy", "it's", 'q"q', "star*", "b`id`", "a&b", "a|b", "x.bak",
         "p-p", "~p", "a>b", "a\\b", "#p", "(p)", "p!", "{p}", "%s%n.policy", "./p", "sub/../p", "\xe9.policy", "a=b,c", "[p]", "p?"]


def cases():
    rng = np.random.default_rng([SEED, 2020])
    cs = workload.bench_cases(N, 2020, kinds=["pomdp", "pomdp", "pomdp", "layered"])
    for i, c in enumerate(cs):
        if c.get("lb") == "point":
            c.pop("lb"), c.pop("ub", None)
        if c["strat"] not in ("frtdp", "hsvi"):
            c["mlb"] = 1
        c["name"] = NAMES[i % len(NAMES)]
        c["before"] = ["nothing", "policy", "nothing", "stale backup"][int(rng.integers(4))]
        c["id"] += "-" + c["name"]
    return cs


def whole(path):
    try:
        txt = open(path, encoding="latin1").read()
    except OSError:
        return None
    try:
        n, planes, body = logs.read_policy(path)
    except Exception:
        return None
    if n < 1 or n != len(planes) or any(k != len(e) for _, e, k in planes) or not txt.rstrip().endswith("}"):
        return None
    return txt


def run(c, st):
    w = workload.Work(c)
    name = c["name"]
    rng = np.random.default_rng(c["seed"] + 20)
    old = ('{\n  policyType => "MaxPlanesLowerBound",\n  numPlanes => 1,\n  planes => [\n    {\n      action => 0,\n      numEntries => %d,\n'
           "      entries => [\n%s\n      ]\n    }\n  ]\n}\n" % (w.m.nS, ",\n".join("        %d, -1e9" % i for i in range(w.m.nS))))
    nb = int(rng.choice([15, 40, 90]))
    opt = ["-i", "2", "--evaluationMaxStepsPerTrial", "2", "--evaluationFirstEpochWallclockSeconds", "0.0005",
           "--evaluationEpochsPerMagnitude", str(int(rng.choice([10, 100, 1000]))), "--simulationTracesToLogPerEpoch", "0",
           "-p", "%.17g" % (1e-6 * w.scale()), "--terminateNumBackups", str(nb)]
    pol = ["-o", name] if not name.startswith("-") else ["--policyOutputFile", name]

    def prepare(d):
        os.mkdir(os.path.join(d, "sub"))
        w.write(d)
        if c["before"] == "policy":
            open(os.path.join(d, name), "w").write(old)
        if c["before"] == "stale backup":
            open(os.path.join(d, name + ".bak"), "w").write(old)
        return {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}

    def go(d, env):
        e = {"ZV_SEED": str(c["rs"]), "ZV_CLOCK": "1"}
        e.update(env)
        return logs.zmdp(d, ["benchmark"] + w.args() + opt + pol + [w.fname], env=e, timeout=120)
    files = dict(w.files(), args=" ".join(w.args() + opt + pol))

    def bad(what, detail=""):
        raise Violation(what, detail, files)
    with Scratch() as d:
        before = prepare(d)
        r = go(d, {"ZV_KILL_LOG": os.path.join(d, "ops")})
        logs.must_end_ok(r, "a benchmark with an output policy", files)
        p = os.path.join(d, name)
        if not os.path.exists(p):
            bad("a completed benchmark leaves no policy at the requested name", "name %r\n%s" % (name, r.brief()))
        if whole(p) is None:
            bad("a completed benchmark leaves a policy that is not whole", r.brief())
        after = {os.path.relpath(os.path.join(q, f), d) for q, _, fs in os.walk(d) for f in fs if not f.startswith(".zv")}
        extra = after - before - {os.path.normpath(name), "ops", "bounds.plot", "inc.plot", "sim.plot", "scores.plot"}
        if extra:
            bad("a completed benchmark leaves another file besides the policy", "%s\n%s" % (sorted(extra), r.brief()))
        if os.path.exists(p + ".bak"):
            bad("a completed benchmark leaves the backup of the policy", r.brief())
        rows = logs.bounds_plot(os.path.join(d, "bounds.plot"))
        lb = rows[-1][1]
        judge_policy(w, p, lb, 6e-6 * abs(lb), st, 1e-6 * w.scale(), walk=100)  # newest: it claims the last lower bound
        epochs = len([1 for l in open(os.path.join(d, "inc.plot")) if l.strip()])
        st.add("evaluation epochs", epochs)
        ops = [l.rstrip("\n").split(" ", 2) for l in open(os.path.join(d, "ops"), encoding="latin1")]
        lname = name.encode("utf8").decode("latin1")
        mine = [i for i, o in enumerate(ops) if o[2].startswith(lname)]
    if not mine:
        bad("the policy file is never written")
    # the first policy is whole once the first rewrite touches a whole file: the first rename that finds one
    opens = [i for i in mine if ops[i][1].startswith("fopen")]
    if c["before"] == "nothing":
        first = [i for i in mine if i > opens[0]] if opens else []
        # the file is complete before anything else is opened or renamed after it
        later = [i for i, o in enumerate(ops) if i > opens[0] and not o[1].startswith("write")] if opens else []
        lo = later[0] if later else len(ops)
    else:
        lo = 0
    # crash points around every rewrite, and some anywhere
    near = sorted({j for i in mine for j in range(i - 1, i + 5) if lo <= j < len(ops)})
    pts = [(int(i), m) for i in near for m in ("before", "half", "after")]
    anyw = [(int(rng.integers(lo, len(ops))), "before") for _ in range(2)] if lo < len(ops) else []
    pick = [pts[i] for i in rng.permutation(len(pts))[:KILLS]] + anyw
    kinds = set()
    for i, mode in pick:
        with Scratch() as d:
            prepare(d)
            r = go(d, {"ZV_KILL_AT": str(i + 1), "ZV_KILL_MODE": mode})
            if r.rc != -9:
                st.add("crash points not reached")
                continue
            st.add("crashes")
            kinds.add((ops[i][1], mode))
            st.seen("crash points", (ops[i][1], mode, i in mine))
            p = os.path.join(d, name)
            a, b = whole(p), whole(p + ".bak")
            if a is None and b is None:
                bad("a crash leaves no whole policy at the policy's name or its backup's",
                    "killed %s operation %d (%s %s); epochs %d; file: %s, backup: %s" %
                    (mode, i + 1, ops[i][1], ops[i][2], epochs, os.path.exists(p), os.path.exists(p + ".bak")))
            st.add("policies whole at the name", a is not None)
            st.add("policies whole at the backup only", a is None)
            if int(rng.integers(6)) == 0:
                src = name if a is not None else name + ".bak"
                e = logs.zmdp(d, ["evaluate", "--policyInputFile", src, "-i", "3", "--evaluationMaxStepsPerTrial", "3", w.fname],
                              env={"ZV_SEED": "1"})
                if not e.ok:
                    bad("zmdp evaluate cannot read the policy a crash left", e.brief())
                st.add("policies read back")
    return {"case": c["id"], "epochs": epochs, "file operations": len(ops), "crash kinds": sorted(map(str, kinds))} if kinds else None


def main():
    return run_check("C20", cases(), run,
                     "a case is non-trivial when at least one crash during the run was judged")
