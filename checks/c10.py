"""C10: valid runs are free of memory errors and undefined behaviour."""
import os, re, subprocess
import numpy as np
from zv import logs, workload, models, build
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, zrun
from checks.c14 import FLAGS

N = 6000 if THOROUGH else 1500
NV = 400 if THOROUGH else 64      # runs under valgrind (uninitialised values, which the sanitizers do not see)


def cases():
    rng = np.random.default_rng([SEED, 1010])
    cs = []
    for i, c in enumerate(workload.bench_cases(N + NV, 1011)):
        c["tool"] = "valgrind" if i % ((N + NV) // NV) == 0 else "asan"
        c["u"] = int(rng.integers(1, 2 ** 31))
        c["id"] += "-" + c["tool"]
        cs.append(c)
    return cs


def options(rng, c, w):
    pom = w.pomdp
    f = {k: int(rng.random() < 0.5) for k in FLAGS}
    if not f["useMaxPlanesMasking"]:
        f["useMaxPlanesSupportList"] = 0
    if not f["useMaxPlanesCache"]:
        f["useMaxPlanesExtraPruning"] = 0
    a = []
    for k in FLAGS:
        a += ["--" + k, str(f[k])]
    s = c["strat"]
    a += ["-s", s]
    lb = ub = None
    if pom and rng.random() < 0.3:
        lb = "point"
        a += ["-l", "point"]
    if pom and rng.random() < 0.3:
        ub = "point"
        a += ["-u", "point"]
    if s not in ("frtdp", "hsvi") and rng.random() < 0.5:
        a += ["--maintainLowerBound", "1"]
        lbm = True
    else:
        lbm = s in ("frtdp", "hsvi")
    if rng.random() < 0.3:
        a += ["-d"]
    if rng.random() < 0.3:
        a += ["--useTimeWithoutHeuristic", "0"]
    if rng.random() < 0.3 and w.kind not in ("track", "custom"):
        a += ["-f"]
    if rng.random() < 0.5:
        a += ["--runTimeActionSelection", str(rng.choice(["upper", "lower"] if lbm else ["upper"]))]
    return a, lbm, pom and lbm and lb is None


def tool(argv, d, c, env, timeout):
    if c["tool"] == "asan":
        return logs.zmdp(d, argv, env=env, timeout=timeout)
    t = build.ensure("plain")
    v = ["valgrind", "--quiet", "--error-exitcode=98", "--track-origins=no", "--undef-value-errors=yes", "--leak-check=no",
         "--num-callers=12", "--main-stacksize=16000000", t.exe()] + argv
    return zrun(v, d, env=env, timeout=timeout)


def judge(r, what, files):
    if r.rc == 98 and "==" in r.err:
        m = re.search(r"==\d+== ([^\n]+)\n(?:==\d+==\s+(?:at|by) 0x[0-9A-F]+: ([^\n(]+))", r.err)
        raise Violation("valgrind reports on a valid run: %s" % (m and (m.group(1) + " @" + m.group(2)) or "?"),
                        r.brief() + r.err[:3000], files)
    if r.timeout:
        raise Inconclusive("watchdog: " + what)
    if not r.ok:
        if r.oom:
            raise Inconclusive("out of memory")
        raise Violation("a valid %s run ended abnormally: %s" % (what, r.sig()), r.brief(), files)


def run(c, st):
    rng = np.random.default_rng(c["u"])
    w = workload.Work(dict(c, lb=None, ub=None, opts={}))
    base = w.extra
    files = w.files()
    vg = c["tool"] == "valgrind"
    to = 240 if vg else 60
    with Scratch() as d:
        w.write(d)
        a, has_lb, can_write = options(rng, c, w)
        nb = int(rng.choice([1, 5, 30, 120, 300])) if not vg else int(rng.choice([5, 40]))
        env = {"ZV_SEED": c["rs"], "ZV_CLOCK": str(rng.choice(["1", "50", "11000"]))}
        if rng.random() < 0.15:
            env["ZV_RAND"] = str(rng.choice(["max", "zero", "mix5", "mix20"]))
            if c["strat"] in ("rtdp", "lrtdp", "hdp") and env["ZV_RAND"] in ("max", "zero"):
                env["ZV_RAND"] = "mix5"
        ev = ["-i", str(int(rng.choice([1, 7, 30, 65]))), "--evaluationMaxStepsPerTrial", str(int(rng.choice([1, 5, 40]))),
              "--simulationTracesToLogPerEpoch", str(int(rng.choice([-1, 0, 1, 3]))), "--useEvaluationCache", str(int(rng.integers(2)))]
        prec = ["-p", "%.17g" % (w.scale() * float(rng.choice([1e-1, 1e-2, 1e-5])))]
        did = []
        if rng.random() < 0.5:
            argv = ["solve"] + a + base + prec + ["--terminateNumBackups", str(nb)]
            argv += ["-o", "p" if can_write else "none", w.fname]
            if rng.random() < 0.3:
                argv[1:1] = ["--useLogBackups", "1", "--qValuesOutputFile", "q.log"]
            r = tool(argv, d, c, env, to)
            judge(r, "solve", files)
            did.append("solve")
        else:
            argv = ["benchmark"] + a + base + prec + ev + ["--terminateNumBackups", str(nb)]
            argv += ["-o", "p" if can_write else "none"]
            argv += ["--evaluationFirstEpochWallclockSeconds", str(rng.choice(["0.01", "0.1", "1e9"])),
                     "--evaluationEpochsPerMagnitude", str(int(rng.choice([1, 3, 10])))]
            if rng.random() < 0.6:
                argv += logs.LOGARGS
            argv += [w.fname]
            r = tool(argv, d, c, env, to)
            judge(r, "benchmark", files)
            did.append("benchmark")
            if os.path.exists(os.path.join(d, "backups.log")) and rng.random() < 0.5:
                os.makedirs(os.path.join(d, "in"))
                for n in ("stateIndex.log", "backups.log"):
                    os.rename(os.path.join(d, n), os.path.join(d, "in", n))
                sa = [x for x in a]
                sa[sa.index("-s") + 1] = "script"
                argv = ["benchmark"] + sa + base + prec + ev + ["--backupScriptInputDir", "in", "--useLogBackups", "1"] + [w.fname]
                if "--maintainLowerBound" not in argv:
                    argv += ["--maintainLowerBound", "1"]
                r = tool(argv, d, c, env, to)
                judge(r, "script", files)
                did.append("script")
        if can_write:
            for _ in range(2):
                e = ["evaluate", "--policyInputFile", "p"] + ev
                f = {k: int(rng.random() < 0.5) for k in FLAGS}
                f["useMaxPlanesSupportList"] &= f["useMaxPlanesMasking"]
                f["useMaxPlanesExtraPruning"] &= f["useMaxPlanesCache"]
                for k in FLAGS:
                    e += ["--" + k, str(f[k])]
                if rng.random() < 0.3:
                    e += ["-f"]
                if rng.random() < 0.3:
                    e += ["--plannerModel", w.fname]
                r = tool(e + [w.fname], d, c, env, to)
                judge(r, "evaluate", files)
                did.append("evaluate")
                if vg:
                    break
        for x in did:
            st.add("%s runs under %s" % (x, c["tool"]))
        st.seen("option combinations", tuple(a))
        return {"case": c["id"], "ran": did, "options": " ".join(a)[:200], "backups": nb}


def main():
    return run_check("C10", cases(), run,
                     "a case is non-trivial when every command of its chain ran to its normal end under the instrumentation",
                     kinds=("san", "plain"), assumptions=[
                         "ASan+UBSan with _GLIBCXX_ASSERTIONS on every run; valgrind memcheck on a sample, as MemorySanitizer "
                         "would need an instrumented C++ library"])
