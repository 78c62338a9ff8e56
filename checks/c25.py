"""C25: success means every requested output is complete; a write failure is reported."""
import errno, os
import numpy as np
from zv import build, logs, workload, models, lifesurvey
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, zrun, zrun_limited
from checks.c06 import rnd_planes, write_max
from checks.c20 import whole

N = 1200 if THOROUGH else int(os.environ.get("ZV_N", "640"))
FAULTS = 30 if THOROUGH else 12
ERRS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
OPENERRS = [errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EMFILE]


def cases():
    rng = np.random.default_rng([SEED, 2525])
    cs = workload.bench_cases(N, 2525)
    for i, c in enumerate(cs):
        c["cmd"] = ["benchmark", "benchmark", "solve", "evaluate", "benchmark", "genConfig", "ls", "evaluate"][i % 8]
        if c["cmd"] in ("solve", "evaluate") and c["kind"] not in ("pomdp", "layered"):
            c.update(kind="pomdp", family=models.POMDP_FAMILIES[i % len(models.POMDP_FAMILIES)], strat="hsvi", opts={})
            c.pop("n", None)
        if c["kind"] in ("pomdp", "layered") and c["cmd"] != "evaluate":
            if c.get("lb") == "point":
                c.pop("lb"), c.pop("ub", None)
            if c["strat"] not in ("frtdp", "hsvi"):
                c["mlb"] = 1
        c["before"] = int(rng.integers(3))
        c["id"] = "%s-%s" % (c["cmd"], c["id"])
    return cs


def snapshot(d):
    out = {}
    for q, _, fs in os.walk(d):
        for f in fs:
            if not f.startswith(".zv") and f not in ("ops",):
                p = os.path.join(q, f)
                out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def commands(c, rng, w):
    """(argv tail, env, names of the outputs, name of the policy or None, input files {name: text})"""
    t = build.ensure("san")
    names = {k: v for k, v in [("boundsOutputFile", "b.plot"), ("evaluationOutputFile", "e.plot"),
                               ("simulationTraceOutputFile", "s.plot"), ("scoresOutputFile", "sub/sc.plot"),
                               ("stateIndexOutputFile", "sub/si.log"), ("backupsOutputFile", "ba.log"),
                               ("boundValuesOutputFile", "bv.log"), ("qValuesOutputFile", "q.log"),
                               ("storageOutputFile", "st.log")]}
    env = {"ZV_SEED": str(c["rs"]), "ZV_CLOCK": "1"}
    if c["cmd"] == "benchmark":
        used = ["boundsOutputFile", "evaluationOutputFile", "simulationTraceOutputFile", "scoresOutputFile"]
        a = [t.exe(), "benchmark"] + w.args() + [
            "-i", str(int(rng.choice([1, 3, 40]))), "--evaluationMaxStepsPerTrial", str(int(rng.choice([2, 10]))),
            "--evaluationFirstEpochWallclockSeconds", "0.0005", "--evaluationEpochsPerMagnitude",
            str(int(rng.choice([2, 10, 100]))), "--simulationTracesToLogPerEpoch", str(int(rng.choice([0, 1, -1]))),
            "-p", "%.17g" % (1e-6 * w.scale()), "--terminateNumBackups", str(int(rng.choice([15, 60, 200])))]
        if rng.random() < 0.6:
            used += ["stateIndexOutputFile", "backupsOutputFile", "boundValuesOutputFile"]
            a += ["--useLogBackups", "1"]
            if rng.random() < 0.5:
                used += ["qValuesOutputFile"]
        if rng.random() < 0.5:
            used += ["storageOutputFile"]
        for u in used:
            a += ["--" + u, names[u]]
        pol = "o.policy" if w.pomdp and rng.random() < 0.7 else None
        if pol:
            a += ["-o", pol]
        return a + [w.fname], env, [names[u] for u in used] + [pol] * bool(pol), pol, w.files()
    if c["cmd"] == "solve":
        a = [t.exe(), "solve"] + w.args() + ["-o", "sub/o.policy", "-p", "%.17g" % ((1e-1 if w.kind != "layered" else 1e-3) * w.scale()), w.fname]
        return a, env, ["sub/o.policy"], "sub/o.policy", w.files()
    if c["cmd"] == "evaluate":
        a = [t.exe(), "evaluate", "--policyInputFile", "in.policy", "-i", str(int(rng.choice([2, 30, 300]))),
             "--evaluationMaxStepsPerTrial", "6", "--simulationTracesToLogPerEpoch", str(int(rng.choice([0, 2, -1]))),
             "--useEvaluationCache", str(int(rng.integers(2))),
             "--scoresOutputFile", names["scoresOutputFile"], "--simulationTraceOutputFile", names["simulationTraceOutputFile"], w.fname]
        return a, env, [names["scoresOutputFile"], names["simulationTraceOutputFile"]], None, dict(w.files(), **{"in.policy": None})
    if c["cmd"] == "genConfig":
        return [t.exe(), "--genConfig", "sub/gen.config"], env, ["sub/gen.config"], None, {}
    if c["cmd"] == "ls":
        m = lifesurvey.random_map(rng, 1.0)
        if rng.random() < 0.5:
            return [t.exe("dumpMap"), "m.lifeSurvey", "dump"], env, ["dump"], None, {"m.lifeSurvey": m.text(rng)}
        full = ["-f"] if rng.random() < 0.5 else []
        return [t.exe("gen_LifeSurvey")] + full + ["m.lifeSurvey", "sub/g.pomdp"], env, ["sub/g.pomdp"], None, {"m.lifeSurvey": m.text(rng)}
    raise KeyError(c["cmd"])


def run(c, st):
    rng = np.random.default_rng([c["seed"], 25])
    w = None if c["cmd"] in ("genConfig", "ls") else workload.Work(c)
    argv, env, outs, pol, inputs = commands(c, rng, w)
    if "in.policy" in inputs:
        inputs["in.policy"] = write_max(rng, rnd_planes(rng, w.m))
    files = dict({k: v for k, v in inputs.items() if v}, args=" ".join(argv[1:]))
    old = "an older file\n" * 400

    def prepare(d):
        os.mkdir(os.path.join(d, "sub"))
        for k, v in inputs.items():
            open(os.path.join(d, k), "w").write(v)
        if c["before"] == 1:  # the outputs exist already
            for o in outs:
                open(os.path.join(d, o), "w").write(old)
        open(os.path.join(d, "bystander"), "w").write("mine\n")
        return snapshot(d)

    def bad(what, detail=""):
        raise Violation("%s (%s)" % (what, c["cmd"]), detail, files)

    with Scratch() as d:
        b0 = prepare(d)
        with Scratch() as pd:  # outputs may be rewritten, and be larger on the way than in the end
            pk = os.path.join(pd, "peaks")
            r = zrun(argv, d, env=dict(env, ZV_KILL_LOG=os.path.join(d, "ops"), ZV_PEAKS=pk), timeout=120)
            peak = max([int(l.split()[0]) for l in open(pk, encoding="latin1")], default=0) if os.path.exists(pk) else 0
        logs.must_end_ok(r, "the unhindered run", files)
        ref = snapshot(d)
        opsfile = os.path.join(d, "ops")
        ops = []
        if os.path.exists(opsfile):
            for l in open(opsfile, encoding="latin1"):
                n, k, p = (l.rstrip("\n").split(" ", 2) + [""])[:3]
                ops.append((k, os.path.relpath(p, d) if os.path.isabs(p) else os.path.normpath(p)))
    missing = [o for o in outs if o not in ref]
    if missing:
        bad("a requested output is not written", str(missing))
    changed = sorted(k for k in set(ref) | set(b0) if ref.get(k) != b0.get(k))
    extra = [k for k in changed if k not in outs]
    if extra:
        bad("a file that was not requested is created, changed or removed", str(extra))
    st.add("output files", len(outs))
    with Scratch() as d:  # the reference must be reproducible, or nothing can be judged
        prepare(d)
        r = zrun(argv, d, env=env, timeout=120)
        if not r.ok or snapshot(d) != ref:
            raise Inconclusive("the unhindered run is not reproducible")
    # the policy is whole somewhere from the end of its first writing on
    lo = None
    if pol:
        wr = [i for i, o in enumerate(ops) if os.path.normpath(pol) == o[1]]
        op = [i for i in wr if ops[i][0].startswith("fopen")]
        later = [i for i, o in enumerate(ops) if op and i > op[0] and not o[0].startswith("write")]
        lo = later[0] if later else len(ops)
    plans = []
    mine = [i for i, o in enumerate(ops)]
    cstdio = c["cmd"] in ("genConfig", "ls")
    for _ in range(FAULTS):
        k = int(rng.integers(6))
        if cstdio or (k == 0) or not mine:
            sizes = sorted(len(ref[o]) for o in outs)
            top = sizes[int(rng.integers(len(sizes)))]
            f = int(rng.choice([0, 1, top - 1, top // 2, int(rng.integers(0, top + 1)), top, 4096, 8192, sizes[-1], max(peak, sizes[-1])]))
            plans.append(("limit", max(0, f), None))
            if cstdio and rng.random() < 0.15 and ops:
                plans.append(("one", 0, int(rng.choice(OPENERRS))))
            continue
        # spread over the files rather than the operations
        byfile = {}
        for i in mine:
            byfile.setdefault((ops[i][1], ops[i][0].startswith("fopen")), []).append(i)
        keys = sorted(byfile)
        ii = byfile[keys[int(rng.integers(len(keys)))]]
        i = ii[int(rng.choice([0, len(ii) - 1, int(rng.integers(len(ii)))]))]
        if ops[i][0].startswith("write"):
            mode = ["one", "short", "full", "while", "one"][int(rng.integers(5))]
            plans.append((mode, i, int(rng.choice(ERRS))))
        else:
            plans.append(("one", i, int(rng.choice(OPENERRS))))
    seen = set()
    judged = 0
    for mode, i, err in plans:
        if (mode, i) in seen:
            continue
        seen.add((mode, i))
        with Scratch() as d:
            prepare(d)
            if mode == "limit":
                r = zrun_limited(argv, d, i, env=env, timeout=120)
                what = "files limited to %d bytes" % i
                hit = [o for o in outs if len(ref[o]) > i]
                opk = "limit"
            else:
                e = {"ZV_FAIL_AT": str(i + 1), "ZV_FAIL_MODE": {"short": "half"}.get(mode, mode), "ZV_FAIL_ERR": str(err),
                     "ZV_FAIL_LEN": str(int(rng.choice([2, 4, 10])))}
                r = zrun(argv, d, env=dict(env, **e), timeout=120)
                what = "operation %d (%s %s) fails (%s, errno %d)" % (i + 1, ops[i][0], ops[i][1], mode, err)
                hit = [ops[i][1]]
                opk = ops[i][0]
            if r.timeout:
                raise Inconclusive("watchdog: " + what)
            after = snapshot(d)
            if r.san:
                bad("a failing write makes the command end abnormally: %s" % r.sig(), what + "\n" + r.brief())
            st.add("faults")
            st.seen("fault kinds", (c["cmd"], mode, opk, err, os.path.basename(hit[0]) if hit else ""))
            judged += 1
            other = [k for k in set(after) | set(b0) if after.get(k) != b0.get(k) and k not in outs and
                     not (pol and k == pol + ".bak")]
            if other:
                bad("when a write fails a file that was not requested is created, changed or removed", "%s\n%s" % (sorted(other), what))
            if r.rc == 0:
                diff = [o for o in outs if after.get(o) != ref[o]]
                if diff:
                    bad("the command reports success although an output is not complete",
                        "%s\nnot as in the unhindered run: %s (%s)\n%s" %
                        (what, diff, [(len(after.get(o, b"")), len(ref[o])) for o in diff], r.out[-300:]))
                st.add("faults survived with complete output")
                if opk == "limit" and hit:
                    raise RuntimeError("harness: the limit had no effect")
            else:
                st.add("faults reported")
                msg = r.err + r.out
                if not [o for o in outs if o in msg or os.path.basename(o) in msg]:
                    bad("the error does not name an output that could not be written", what + "\n" + r.brief())
                if "ERROR" not in msg.upper() and "fail" not in msg and "couldn't" not in msg:
                    bad("the command fails without an error message", what + "\n" + r.brief())
                if mode == "limit" and not hit and i >= peak:
                    bad("the command fails although every output fits", what + "\n" + r.brief())
            if pol and lo is not None and mode != "limit" and i >= lo:
                if whole(os.path.join(d, pol)) is None and whole(os.path.join(d, pol + ".bak")) is None:
                    bad("a failing write leaves no whole policy at the policy's name or its backup's", what + "\n" + r.brief())
                st.add("policies still whole")
    return {"case": c["id"], "operations": len(ops), "faults": judged, "outputs": sorted(outs)} if judged else None


def main():
    return run_check("C25", cases(), run, "a case is non-trivial when at least one fault was injected and judged")
