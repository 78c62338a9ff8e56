"""C09: malformed input of any kind is rejected cleanly."""
import os, re
import numpy as np
from zv import build, cassandra, lifesurvey, logs, models, mutate, racetrack, run as zvrun, workload
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, zrun
from checks.c06 import rnd_planes, write_max, write_alpha
from checks.c08 import FastGen
from checks.c17 import defaults

N = 24000 if THOROUGH else 2600
PER = 8  # variants of each base input
KINDS = ["pomdp", "pomdp", "mdp", "fast", "track", "policy", "alpha", "config", "script", "survey", "targets", "pair"]
ASAN = zvrun.BASE_ENV["ASAN_OPTIONS"].replace("max_allocation_size_mb=4000", "max_allocation_size_mb=600") + ":hard_rss_limit_mb=1200"
WORDS = {
    "model": "discount values states actions observations start include exclude uniform identity reset reward cost T O R T: O: R: E: discount: states: start:".split(),
    "track": "discount errorProbability windProbability map maxCost useMaxCost useErrorIsWind g s . @ % f x".split(),
    "policy": "policyType => numPlanes planes action numEntries entries [ ] { } MaxPlanesLowerBound".split(),
    "config": "alias none solve frtdp hsvi script maxPlanes point 1.0 -c --help searchStrategy evaluate".split(),
    "script": "state 0 1 #".split(),
    "survey": "startX startY baseCost lookaheadCost regionPriors obsDistributionLifeAbsent obsDistributionLifePresent --- a b z A".split(),
}


def cases():
    rng = np.random.default_rng([SEED, 909])
    return [{"id": "%s-%d" % (KINDS[i % len(KINDS)], i), "k": KINDS[i % len(KINDS)], "seed": int(rng.integers(1, 2 ** 31))} for i in range(N)] + \
        [{"id": "starlist-" + f, "k": "starlist", "form": f, "seed": int(rng.integers(1, 2 ** 31))} for f in ("include", "exclude")] + \
        [{"id": "badstate-%d" % i, "k": "badstate", "seed": int(rng.integers(1, 2 ** 31))} for i in range(N // 20)]


def small_pomdp(rng):
    return models.rnd_pomdp(rng, models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))])


LIM = ["--terminateNumBackups", "15", "-p", "1e-3", "-t", "20", "-o", "none"]
SIM = ["-i", "4", "--evaluationMaxStepsPerTrial", "4", "--scoresOutputFile", "sc", "--evaluationOutputFile", "ev", "--simulationTraceOutputFile", "sm"]


def bases(c, rng, d):
    """(name of the file to damage, its text, words, other texts, [commands], how long a run of it may last is known)"""
    k = c["k"]

    def w(n, t):
        open(os.path.join(d, n), "w", encoding="latin1").write(t)
    st = ["frtdp", "hsvi"][int(rng.integers(2))]
    if k in ("pomdp", "mdp"):
        g = cassandra.Gen(rng, k)
        other = cassandra.Gen(rng, "mdp" if k == "pomdp" else "pomdp").text
        f = "m." + k
        return f, g.text, WORDS["model"], other, [("parse", ["dumpmodel", "std", k, f]), ("run", ["solve", "-s", st, f] + LIM)]
    if k == "fast":
        q = ["pomdp", "mdp"][int(rng.integers(2))]
        g = FastGen(rng, q)
        f = "m." + q
        return f, g.text(), WORDS["model"], cassandra.Gen(rng, q).text, \
            [("parse", ["dumpmodel", "fast", q, f]), ("parse", ["dumpmodel", "std", q, f]), ("run", ["solve", "-f", "-s", st, f] + LIM)]
    if k == "track":
        t = racetrack.rnd_track(rng)
        return "m.racetrack", t.text(), WORDS["track"], "", \
            [("parse", ["modelwalk", "track", "m.racetrack", "-", "1", "300", "dump"]), ("run", ["solve", "-s", "frtdp", "m.racetrack"] + LIM),
             ("run", ["benchmark", "-s", "lrtdp", "m.racetrack"] + LIM + SIM)]
    if k in ("policy", "alpha"):
        m = small_pomdp(rng)
        w("m.pomdp", m.text())
        pl = rnd_planes(rng, m)
        full = [(a, {s: e.get(s, 0.0) for s in range(m.nS)}, n) for a, e, n in pl]
        x, y = write_max(rng, pl), write_alpha(rng, full, m.nS)
        if k == "policy":
            opt = [[], ["--useMaxPlanesMasking", "0", "--useMaxPlanesSupportList", "0"]][int(rng.integers(2))]
            return "p", x, WORDS["policy"], y, [("bounded", ["evaluate", "--policyInputFile", "p", "m.pomdp"] + opt + SIM)]
        return "p", y, (), x, [("bounded", ["evaluate", "--policyType", "cassandraAlpha", "--policyInputFile", "p", "m.pomdp"] + SIM)]
    if k == "config":
        m = small_pomdp(rng)
        w("m.pomdp", m.text())
        D = defaults(d)
        names = sorted(D["f"])
        pick = [names[int(i)] for i in rng.permutation(len(names))[:int(rng.integers(1, 12))]]
        skip = ("command", "simulatorModel", "policyInputFile")
        t = "".join("%s %s\n" % (n, D["f"][n]) for n in pick if n not in skip) if rng.random() < 0.7 else D["text"]
        return "cfg", t, WORDS["config"] + names, "", \
            [("config", ["solve", "-c", "cfg", "--debugLevel", "1", "m.pomdp"] + LIM),
             ("config", ["benchmark", "-c", "cfg", "--debugLevel", "1", "m.pomdp"] + LIM + SIM)]
    if k == "script":
        kind = ["pomdp", "mdp", "track", "custom"][int(rng.integers(4))]
        wk = workload.Work({"kind": kind, "seed": c["seed"], "family": models.POMDP_FAMILIES[0] if kind == "pomdp" else
                            sorted(MDPF)[int(rng.integers(len(MDPF)))], "strat": "frtdp", "n": 6})
        r = workload.run_bench(wk, d, 25, 1e-3 * wk.scale())
        logs.must_end_ok(r, "benchmark", wk.files())
        os.mkdir(os.path.join(d, "in"))
        for n in ("stateIndex.log", "backups.log"):
            os.rename(os.path.join(d, n), os.path.join(d, "in", n))
        v = ["stateIndex.log", "backups.log"][int(rng.integers(2))]
        t = open(os.path.join(d, "in", v)).read()
        a = wk.args()
        a[1] = "script"
        return "in/" + v, t, WORDS["script"], "", \
            [("bounded", ["benchmark"] + a + workload.BENCH_FAST + logs.LOGARGS + ["--backupScriptInputDir", "in", wk.fname])]
    if k in ("survey", "targets"):
        for _ in range(20):
            m = lifesurvey.random_map(rng, 1.0)
            if len(m.cells) <= 8:
                break
        if k == "survey":
            return "m.lifeSurvey", m.text(rng), WORDS["survey"], "", \
                [("parse", ["dumpMap", "m.lifeSurvey", "dump"]), ("run", ["genTargetLocations", "m.lifeSurvey"]),
                 ("run", ["gen_LifeSurvey", "m.lifeSurvey", "o.pomdp"]), ("run", ["gen_LifeSurvey", "-f", "m.lifeSurvey", "o2.pomdp"]),
                 ("lspath", [])]
        w("m.lifeSurvey", m.text())
        t = "".join("%d %d\n" % q for q in m.cells)
        w("t", t)
        tr = "".join("%d %d\n" % (int(rng.integers(7)), int(rng.integers(28))) for _ in range(12))
        w("tr", tr)
        f = ["t", "tr"][int(rng.integers(2))]
        return f, t if f == "t" else tr, (), "", \
            [("bounded", ["calcLSTrialStats", "-v", "m.lifeSurvey", "t", "tr"])] + \
            ([("run", ["gen_LifeSurvey", "-t", "t", "m.lifeSurvey", "o.pomdp"])] if f == "t" else [])
    raise KeyError(k)


MDPF = models.MDP_FAMILIES if hasattr(models, "MDP_FAMILIES") else ["random"]


def go(tree, d, a, timeout):
    if a[0] in ("dumpmodel", "modelwalk"):
        argv = [tree.probe(a[0])] + a[1:]
    elif a[0] in ("dumpMap", "gen_LifeSurvey", "genTargetLocations", "calcLSTrialStats"):
        argv = [tree.exe(a[0])] + a[1:]
    else:
        argv = [tree.exe()] + a
    return zrun(argv, d, timeout=timeout, env={"ASAN_OPTIONS": ASAN, "ZV_SEED": "3"}, maxout=400000)


def out_of_memory(r):
    """the input declares sizes that do not fit (a limit set here, far above what valid inputs need)"""
    return r.oom or "rss limit" in r.err or "std::bad_alloc" in r.err or "std::length_error" in r.err


def judge(c, st, r, cls, a, files, small):
    what = a[0]
    if r.timeout:
        if cls in ("parse", "bounded") or (cls == "config" and "[params begin]" not in r.out + r.err) or (cls == "run" and small):
            raise Violation("%s hangs on a malformed input" % what, "%s\n%s" % (" ".join(a), r.out[-500:]), files)
        st.add("long runs of inputs that were accepted")
        return
    if out_of_memory(r):
        st.add("inputs that declare sizes beyond the memory limit")
        return
    if r.san or r.rc < 0 or r.rc in (99, 134, 139):
        raise Violation("%s ends abnormally on a malformed input: %s" % (what, r.sig()), r.brief(), files)
    if r.rc == 0:
        st.add("processed normally")
        return
    st.add("refused")
    msg = (r.err.strip() or r.out.strip())
    if not re.search(r"error|usage|syntax|not successfully|cannot|no such|invalid|expected|unknown|couldn't|unexpected|failed", msg, re.I):
        raise Violation("%s fails without an error message" % what, r.brief(), files)
    st.seen("error messages", re.sub(r"[^A-Za-z ]+", "#", (re.findall(r"(?im)^.*(?:error|syntax).*$", r.err + r.out) or [msg])[-1])[:90])


def run(c, st):
    rng = np.random.default_rng(c["seed"])
    tree = build.ensure("san")
    if c["k"] == "starlist":
        return starlist(c, st, rng, tree)
    if c["k"] == "badstate":
        return badstate(c, st, rng, tree)
    if c["k"] == "pair":
        return pair(c, st, rng, tree)
    seen = 0
    with Scratch() as d:
        f, text, words, other, cmds = bases(c, rng, d)
        p = os.path.join(d, f)
        x = os.path.join(d, "x.pomdp")
        if c["k"] == "survey":
            open(x, "w").write("discount: 0.9\nvalues: reward\nstates: 1\nactions: 7\nobservations: 28\nstart: 1\n"
                               "T: * identity\nO: * : * : 27 1.0\nR: * : * : * : * 0\n")
        for v in range(PER):
            sp = rng.random() < 0.06
            t = mutate.special(rng, other) if sp else mutate.mutate(rng, text, words, other)
            if c["k"] == "config":
                t = t.replace("/", "_")  # no output outside the scratch directory
            files = {os.path.basename(f): t, "original": text}
            if sp and rng.random() < 0.15:
                if os.path.exists(p):
                    os.remove(p)
                if rng.random() < 0.5:
                    os.mkdir(p)
                t = None
            if t is not None:
                if os.path.isdir(p):
                    os.rmdir(p)
                with open(p, "w", encoding="latin1", newline="") as h:
                    h.write(t)
            files["command"] = ""
            small = True
            # e.g. 65536 states and "T: a uniform" are 2^32 entries: not a hang, and out of scope like other sizes beyond memory
            huge = t is not None and any(int(q) >= 3000 for q in re.findall(r"(?:states|actions|observations)\s*:[^0-9a-zA-Z]*(\d+)", t))
            for cls, a in cmds:
                if cls == "lspath":
                    cls, a = "run", ["evaluate", "--policyType", "lspath", "--customModel", "m.lifeSurvey", "x.pomdp"] + SIM
                files["command"] = " ".join(a)
                r = go(tree, d, a, 25 if cls in ("parse", "bounded") else 40)
                if r.timeout and huge:
                    st.add("inputs that declare huge sizes")
                    break
                judge(c, st, r, cls, a, files, small)
                seen += 1
                st.add("runs of " + c["k"])
                if cls == "parse":
                    if r.timeout or r.rc != 0 or out_of_memory(r):
                        if a[0] == "dumpmodel" and a[1] == "fast":
                            continue
                        # the program itself must refuse it as well
                        small = True
                    else:
                        small = modest(r.out)
            if os.path.isdir(p):
                os.rmdir(p)
    return {"case": c["id"], "runs": seen}


def modest(out):
    """an accepted model whose solution is known to take little time"""
    m = re.search(r"^discount (\S+)$", out, re.M)
    s = re.search(r"^sizes (\d+) ", out, re.M)
    if not m or not s:
        return False
    big = [float(x) for x in re.findall(r"[-\d.]+e\+\d+", out)[:50]]
    return 0 <= float(m.group(1)) <= 0.97 and int(s.group(1)) <= 60 and not any(abs(v) > 1e6 for v in big) and "inf" not in out and "nan" not in out


def starlist(c, st, rng, tree):
    """a wildcard in a list of start states"""
    with Scratch() as d:
        t = small_pomdp(rng).text()
        t = re.sub(r"(?m)^start.*$", "start %s: *" % c["form"], t)
        open(os.path.join(d, "m.pomdp"), "w").write(t)
        a = ["solve", "m.pomdp"] + LIM
        judge(c, st, go(tree, d, a, 40), "run", a, {"m.pomdp": t, "command": " ".join(a)}, True)
    return {"case": c["id"], "runs": 1}


def badstate(c, st, rng, tree):
    """a script of backups that names something that is not a state of the model"""
    kind = ["pomdp", "mdp", "track"][int(rng.integers(3))]
    with Scratch() as d:
        if kind == "pomdp":
            m = small_pomdp(rng)
            n = m.nS
            good = [{int(s): 1.0} for s in rng.permutation(n)[:4]]
            bad = [{n: 1.0}, {n + 7: 1.0}, {-1: 1.0}, {0: 0.5, n: 0.5}, {0: -0.25, n - 1: 1.25}, {0: 0.5}, {0: 1.5}, {0: float("nan")},
                   {2 ** 31: 1.0}, {0: float("inf")}]
        elif kind == "mdp":
            m = models.rnd_mdp(rng, sorted(MDPF)[int(rng.integers(len(MDPF)))])
            n = len(m.T[0])
            good = [{0: float(s)} for s in rng.permutation(n)[:4]]
            bad = [{0: float(n)}, {0: n + 1.0}, {0: -1.0}, {0: 0.5}, {0: 1e12}, {0: float("nan")}, {1: 0.0}, {-1: 0.0}, {0: -1e12}]
        else:
            m = racetrack.rnd_track(rng)
            good = [{0: float(x), 1: float(y)} for x, y in m.starts[:4]]
            walls = [(x, y) for y, r in enumerate(m.rows) for x, q in enumerate(r) if q == "@"]
            x, y = walls[int(rng.integers(len(walls)))] if walls else (len(m.rows[0]), 0)
            bad = [{0: float(x), 1: float(y)}, {0: len(m.rows[0]) + 0.0, 1: 0.0}, {0: 1.0, 1: len(m.rows) + 0.0}, {0: -3.0, 1: 1.0},
                   {0: m.starts[0][0] + 0.5, 1: m.starts[0][1] + 0.0}, {0: m.starts[0][0] + 0.0, 1: m.starts[0][1] + 0.0, 2: 1e15}, {4: 1.0}]
        f = {"pomdp": "m.pomdp", "mdp": "m.mdp", "track": "m.racetrack"}[kind]
        open(os.path.join(d, f), "w").write(m.text())
        os.mkdir(os.path.join(d, "in"))
        a = ["benchmark", "-s", "script", "--backupScriptInputDir", "in", f] + LIM + SIM
        if kind == "mdp" and m.discount >= 1:
            a += ["--maxHorizon", "20"]
        for b in [None] + [bad[int(i)] for i in rng.permutation(len(bad))[:4]]:
            S = list(good)
            at = int(rng.integers(len(S) + 1))
            if b is not None:
                S.insert(at, b)
            t = "".join("state %d\n%s" % (k, "".join("%d %.17g\n" % e for e in sorted(s.items()))) for k, s in enumerate(S))
            u = "".join("%d\n" % k for k in rng.permutation(len(S)))
            open(os.path.join(d, "in", "stateIndex.log"), "w").write(t)
            open(os.path.join(d, "in", "backups.log"), "w").write(u)
            files = {f: m.text(), "stateIndex.log": t, "backups.log": u, "command": " ".join(a)}
            r = go(tree, d, a, 60)
            judge(c, st, r, "other", a, files, False)
            if b is None and r.rc != 0:
                raise Violation("a script of states of the model is refused", r.brief(), files)
            if b is not None and r.rc == 0 and not r.timeout:
                raise Violation("a script that names something other than a state of the model goes unnoticed", "%s\n%s" % (b, r.brief()), files)
            st.add("scripts with a wrong state" if b is not None else "scripts without one")
    return {"case": c["id"], "runs": 5}


def pair(c, st, rng, tree):
    """files that are well formed but do not belong together"""
    with Scratch() as d:
        a, b = small_pomdp(rng), small_pomdp(rng)
        mdp = models.rnd_mdp(rng, sorted(MDPF)[int(rng.integers(len(MDPF)))])
        trk = racetrack.rnd_track(rng)
        files = {"a.pomdp": a.text(), "b.pomdp": b.text(), "m.mdp": mdp.text(), "t.racetrack": trk.text()}
        files["p"] = write_max(rng, rnd_planes(rng, b))
        full = [(x, {s: e.get(s, 0.0) for s in range(b.nS)}, n) for x, e, n in rnd_planes(rng, b)]
        files["alpha"] = write_alpha(rng, full, b.nS)
        m = lifesurvey.random_map(rng, 1.0)
        files["m.lifeSurvey"] = m.text()
        for n, t in files.items():
            open(os.path.join(d, n), "w").write(t)
        os.link(os.path.join(d, "m.mdp"), os.path.join(d, "x.pomdp"))
        os.link(os.path.join(d, "a.pomdp"), os.path.join(d, "x.mdp"))
        os.link(os.path.join(d, "a.pomdp"), os.path.join(d, "x.racetrack"))
        os.link(os.path.join(d, "t.racetrack"), os.path.join(d, "y.pomdp"))
        os.link(os.path.join(d, "a.pomdp"), os.path.join(d, "noextension"))
        ev = ["evaluate", "--policyInputFile"]
        cmds = [ev + ["p", "a.pomdp"] + SIM, ev + ["alpha", "--policyType", "cassandraAlpha", "a.pomdp"] + SIM,
                ev + ["p", "--plannerModel", "b.pomdp", "a.pomdp"] + SIM, ev + ["p", "--plannerModel", "m.mdp", "a.pomdp"] + SIM,
                ev + ["p", "m.mdp"] + SIM, ev + ["p", "t.racetrack"] + SIM, ev + ["p", "--plannerModel", "b.pomdp", "m.mdp"] + SIM,
                ev + ["alpha", "b.pomdp"] + SIM, ev + ["p", "--policyType", "cassandraAlpha", "b.pomdp"] + SIM,
                ["evaluate", "--policyType", "lspath", "--customModel", "m.lifeSurvey", "a.pomdp"] + SIM,
                ["evaluate", "--policyType", "lspath", "--customModel", "a.pomdp", "a.pomdp"] + SIM,
                ["evaluate", "--policyType", "lsblind", "a.pomdp"] + SIM, ["evaluate", "--policyType", "lspath", "a.pomdp"] + SIM,
                ["evaluate", "--policyType", "lspath", "--customModel", "m.lifeSurvey", "m.mdp"] + SIM,
                ev + ["nosuchfile", "a.pomdp"] + SIM, ev + ["a.pomdp", "a.pomdp"] + SIM, ev + [".", "a.pomdp"] + SIM,
                ["solve", "x.pomdp"] + LIM, ["solve", "x.mdp"] + LIM, ["solve", "x.racetrack"] + LIM, ["solve", "y.pomdp"] + LIM,
                ["solve", "-f", "x.mdp"] + LIM, ["solve", "-f", "x.pomdp"] + LIM, ["solve", "noextension"] + LIM,
                ["solve", "nosuchfile.pomdp"] + LIM, ["solve", "."] + LIM, ["solve", "--modelType", "mdp", "a.pomdp"] + LIM,
                ["solve", "--modelType", "pomdp", "m.mdp"] + LIM, ["solve", "--modelType", "racetrack", "a.pomdp"] + LIM,
                ["solve", "--modelType", "pomdp", "noextension"] + LIM, ["solve", "p"] + LIM,
                ["benchmark", "-s", "script", "--backupScriptInputDir", "nosuchdir", "a.pomdp"] + LIM + SIM,
                ["benchmark", "-s", "script", "--backupScriptInputDir", ".", "a.pomdp"] + LIM + SIM,
                ["benchmark", "a.pomdp", "-c", "nosuchfile"] + LIM, ["solve", "-c", "a.pomdp", "b.pomdp"] + LIM,
                ["solve", "-c", ".", "b.pomdp"] + LIM, ["gen_LifeSurvey", "a.pomdp", "o"], ["dumpMap", "a.pomdp", "o"],
                ["gen_LifeSurvey", "-t", "a.pomdp", "m.lifeSurvey", "o"], ["gen_LifeSurvey", "-t", "nosuchfile", "m.lifeSurvey", "o"],
                ["calcLSTrialStats", "m.lifeSurvey", "a.pomdp", "p"], ["genTargetLocations", "p"], ["gen_LifeSurvey", "m.lifeSurvey", "nodir/o"],
                ["dumpMap", "m.lifeSurvey", "nodir/o"], ["solve", "a.pomdp"] + LIM + ["-o", "nodir/o"], ["solve", "a.pomdp"] + LIM + ["-o", "."],
                ["benchmark", "a.pomdp"] + LIM + SIM + ["--boundsOutputFile", "nodir/x"], ["benchmark", "a.pomdp"] + LIM + SIM + ["-o", "nodir/x"],
                ["benchmark", "a.pomdp"] + LIM + SIM + ["--qValuesOutputFile", "nodir/x"],
                ["benchmark", "a.pomdp"] + LIM + SIM + ["--simulationTraceOutputFile", "nodir/x"],
                ["benchmark", "a.pomdp"] + LIM + SIM + ["--useLogBackups", "1", "--backupsOutputFile", "nodir/x"],
                ["benchmark", "a.pomdp"] + LIM + SIM + ["--storageOutputFile", "nodir/x"]]
        sel = [cmds[int(i)] for i in rng.permutation(len(cmds))[:14]]
        if len(m.cells) > 10:
            sel = [x for x in sel if x[0] != "gen_LifeSurvey"]
        for a2 in sel:
            r = go(tree, d, a2, 60)
            files["command"] = " ".join(a2)
            judge(c, st, r, "other", a2, files, False)
            # files that cannot be what the command needs must be refused
            must = ("nosuch" in files["command"] or "nodir" in files["command"] or "x.pomdp" in a2 or "x.racetrack" in a2 or "y.pomdp" in a2
                    or a2[:2] == ["solve", "p"] or a2[:2] in (["solve", "."], ["solve", "noextension"]) or "." in a2)
            if must and r.rc == 0 and not r.timeout:
                raise Violation("a file that cannot be read or written as required goes unnoticed", r.brief() + "\n" + r.out[-800:], files)
            st.add("mismatched combinations")
    return {"case": c["id"], "runs": len(sel)}


def main():
    return run_check("C09", cases(), run, "a case is non-trivial when its hostile inputs were run to a verdict under the sanitizers",
                     probes=("dumpmodel", "modelwalk"))
