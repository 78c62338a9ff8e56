"""C17: configuration sources layer predictably and bad settings are refused."""
import os, re
import numpy as np
from zv import build, logs, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, zrun

N = 12000 if THOROUGH else 2600
INT = "terminateNumBackups debugLevel maxHorizon evaluationTrialsPerEpoch evaluationMaxStepsPerTrial simulationTracesToLogPerEpoch".split()
BOOL = ("maintainUpperBound useFastModelParser useWeakUpperBoundHeuristic useEvaluationCache useTimeWithoutHeuristic "
        "useMaxPlanesMasking useMaxPlanesSupportList useMaxPlanesCache useMaxPlanesExtraPruning useSawtoothSupportList "
        "useLogBackups").split()
DBL = ("terminateRegretBound terminateLowerBoundValue terminateUpperBoundValue terminateWallclockSeconds "
       "evaluationFirstEpochWallclockSeconds evaluationEpochsPerMagnitude").split()
ENUM = {"searchStrategy": ["frtdp", "hsvi", "rtdp", "lrtdp", "hdp", "script"],
        "modelType": ["-", "pomdp", "mdp", "racetrack", "custom"],
        "lowerBoundRepresentation": ["-", "point", "maxPlanes"],
        "upperBoundRepresentation": ["-", "point", "sawtooth"],
        "maintainLowerBound": ["-", "0", "1"],
        "runTimeActionSelection": ["-", "upper", "lower"],
        "policyType": ["maxPlanes", "cassandraAlpha", "lspath", "lsblind"]}
FILES = ("policyOutputFile evaluationOutputFile boundsOutputFile simulationTraceOutputFile scoresOutputFile stateIndexOutputFile "
         "backupsOutputFile boundValuesOutputFile qValuesOutputFile storageOutputFile").split()
# where a setting is used, and so must be validated
USED = {"simulationTracesToLogPerEpoch": ["benchmark", "evaluate"], "useEvaluationCache": ["benchmark", "evaluate"],
        "terminateNumBackups": ["solve", "benchmark"], "useTimeWithoutHeuristic": ["solve", "benchmark"],
        "useSawtoothSupportList": ["solve", "benchmark"], "useLogBackups": ["solve", "benchmark"],
        "terminateLowerBoundValue": ["benchmark"], "terminateUpperBoundValue": ["benchmark"], "policyType": ["evaluate"]}
ALIAS = {"-f": ("useFastModelParser", "1"), "-d": ("debugLevel", "1"), "-i": ("evaluationTrialsPerEpoch", None),
         "-l": ("lowerBoundRepresentation", None), "-o": ("policyOutputFile", None), "-p": ("terminateRegretBound", None),
         "-s": ("searchStrategy", None), "-t": ("terminateWallclockSeconds", None), "-u": ("upperBoundRepresentation", None)}
KINDS = ["layer", "bad", "layer", "good", "bad", "files", "args", "layer", "effect", "bad"]


def cases():
    rng = np.random.default_rng([SEED, 1717])
    return [{"id": "%s-%d" % (KINDS[i % len(KINDS)], i), "t": KINDS[i % len(KINDS)], "seed": int(rng.integers(1, 2 ** 31))}
            for i in range(N)]


_defaults = {}


def defaults(d):
    """field -> value and the aliases, from the file --genConfig writes (read by this program, not zmdp's)"""
    if not _defaults:
        t = build.ensure("san")
        r = zrun([t.exe(), "--genConfig", "gen.cfg"], d)
        if not r.ok:
            raise Violation("--genConfig fails", r.brief())
        txt = open(os.path.join(d, "gen.cfg")).read()
        src = open(os.path.join(build.REPO, "src/main/zmdp.config")).read()
        if txt != src:
            raise Violation("--genConfig does not write the documented defaults", "", {"gen.cfg": txt})
        f, al = {}, {}
        for line in txt.split("\n"):
            w = line.split()
            if not w or line.startswith("#"):
                continue
            if w[0] == "alias":
                al[w[1]] = " ".join(w[2:])
            else:
                f[w[0]] = w[1]
        _defaults["f"], _defaults["a"], _defaults["text"] = f, al, txt
    return _defaults


SAFE = {"searchStrategy": ["frtdp", "hsvi"], "modelType": ["-", "pomdp"], "lowerBoundRepresentation": ["-", "maxPlanes", "convex"],
        "upperBoundRepresentation": ["-", "point", "sawtooth"], "maintainLowerBound": ["-", "1"],
        "runTimeActionSelection": ["-", "lower"], "policyType": ["maxPlanes", "cassandraAlpha"], "maintainUpperBound": ["1"],
        "useMaxPlanesMasking": ["1"], "useMaxPlanesCache": ["1"], "command": ["solve", "benchmark"], "policyInputFile": ["x", "y.z"],
        "plannerModel": ["-", "other.pomdp"], "customModel": ["none", "a.lifeSurvey"], "backupScriptInputDir": ["none", "dir/"],
        "customMDPNumStates": ["3", "12"], "simulatorModel": ["m.pomdp", "./m.pomdp"]}


def value(rng, f, strict=False):
    if f in SAFE:
        return str(rng.choice(SAFE[f]))
    if f in FILES:
        return str(rng.choice(["out-%d.x" % rng.integers(100), "a=b.%d" % rng.integers(9), "p_%d" % rng.integers(99), "sub/q%d" % rng.integers(9)]))
    if f in BOOL:
        return str(rng.integers(2))
    if f == "debugLevel":
        return "1"
    if f == "evaluationTrialsPerEpoch":
        return str(rng.integers(1, 40))
    if f == "terminateNumBackups":
        return str(rng.choice(["1", "7", "30"]))
    if f == "evaluationMaxStepsPerTrial":
        return str(rng.integers(1, 30))
    if f in INT:
        return str(rng.choice(["-1", "0", "1", "5", "17", "250", "007"]))
    if f == "terminateRegretBound":
        return str(rng.choice(["1", "0.5", "2e-1", "1e0", "5E-1", ".25", "3."]))
    if f == "terminateWallclockSeconds":
        return str(rng.choice(["-1", "30", "1e2", "0", "45.5"]))
    if f in ("terminateLowerBoundValue", "terminateUpperBoundValue"):
        return str(rng.choice(["-999", "1e6", "-1e6", "3.5"]))
    if f in DBL:
        return str(rng.choice(["1", "0.5", "10", "1e3", "2.25"]))
    raise KeyError(f)


PARAMS = re.compile(r"\[params begin\]\n(.*?)\[params end\]", re.S)


def params(out):
    m = PARAMS.search(out)
    if not m:
        return None
    f, al = {}, {}
    for line in m.group(1).split("\n"):
        w = line.split(" ")
        if w[0] == "alias":
            al[w[1]] = " ".join(w[2:])
        elif len(w) >= 2:
            f[w[0]] = " ".join(w[1:])
    return f, al


def model(rng):
    return models.rnd_pomdp(rng, models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))])


def go(d, a, timeout=60, env=None):
    t = build.ensure("san")
    e = {"ZV_SEED": "5", "ZV_CLOCK": "100"}
    e.update(env or {})
    return zrun([t.exe()] + a, d, env=e, timeout=timeout)


def refused(r, what, files, a):
    if r.timeout:
        raise Violation("%s: the run does not end" % what, r.brief(), files)
    if r.san or r.rc < 0:
        raise Violation("%s: the run crashes" % what, r.brief(), files)
    if r.rc == 0:
        raise Violation("%s is not refused" % what, "%s\n%s" % (a, r.brief()), files)
    if not r.err.strip() and "ERROR" not in r.out:
        raise Violation("%s is refused without an error message" % what, "%s\n%s" % (a, r.brief()), files)


def cfg_text(rng, items):
    L = []
    for f, v in items:
        u = rng.random()
        if u < 0.15:
            L.append("# %s %s" % (f, "zork"))
        elif u < 0.25:
            L.append("")
        elif u < 0.3:
            L.append("   \t ")
        sep = str(rng.choice([" ", "\t", "   ", " \t"]))
        L.append(f + sep + v + str(rng.choice(["", "", " ", "\t"])))
    return "\n".join(L) + ("\n" if rng.random() < 0.8 else "")


def run(c, st):
    rng = np.random.default_rng(c["seed"])
    with Scratch() as d:
        os.mkdir(os.path.join(d, "sub"))
        D = defaults(d)
        m = model(rng)
        open(os.path.join(d, "m.pomdp"), "w").write(m.text())
        st.seen("kinds of case", c["t"])
        return {"layer": layer, "bad": bad, "good": good, "files": files, "args": args, "effect": effect}[c["t"]](c, st, rng, d, D, m)


def layer(c, st, rng, d, D, m):
    F = D["f"]
    names = [f for f in F if f not in ("command", "simulatorModel")]
    exp = dict(F)
    fs = {}
    a = []
    use_file = rng.random() < 0.8
    text = None
    if use_file:
        if rng.random() < 0.25:
            base = D["text"]
        else:
            base = ""
        items = []
        for f in rng.permutation(names)[:int(rng.integers(0, 20))]:
            items.append((str(f), value(rng, f)))
            if rng.random() < 0.2:
                items.append((str(f), value(rng, f)))
        al = None
        if rng.random() < 0.3:
            al = [("-z --maxHorizon",), ("-z -y", "-y --maxHorizon"), ("-z -zy", "-zy --maxHorizon"), ("-y --maxHorizon", "-z -y")][int(rng.integers(4))]
        it2 = list(items)
        text = base + "".join("alias%s%s\n" % (" \t"[int(rng.integers(2))], x.replace(" ", " \t"[int(rng.integers(2))]))
                              for x in al or ()) + cfg_text(rng, it2)
        open(os.path.join(d, "my.cfg"), "w").write(text)
        fs["my.cfg"] = text
        for f, v in items:
            exp[f] = v
    opts = []
    fields = list(rng.permutation(names)[:int(rng.integers(0, 14))])
    if use_file and al and "maxHorizon" not in fields:
        fields.append("maxHorizon")
    for f in fields:
        for _ in range(1 + int(rng.random() < 0.25)):
            v = value(rng, f)
            inv = [k for k, (x, y) in ALIAS.items() if x == f and (y is None or y == v)]
            if inv and rng.random() < 0.6:
                opts.append([inv[0]] + ([v] if ALIAS[inv[0]][1] is None else []))
            else:
                opts.append(["--" + str(f), v])
            exp[f] = v
            if rng.random() < 0.6 and f in ("maxHorizon",) and use_file and text and al:
                opts[-1] = ["-z", v]
                st.add("settings given by an alias of the user's")
    for f, v in (("terminateNumBackups", "9"), ("evaluationTrialsPerEpoch", "3")):
        if exp[f] == F[f]:
            opts.append(["--" + f, v])
            exp[f] = v
    # repeated fields keep their relative order; everything else is interleaved with the command and the model
    cmd = str(rng.choice(["solve", "benchmark"]))
    alias_cmd = {"benchmark": "bench"}
    word = alias_cmd[cmd] if cmd in alias_cmd and rng.random() < 0.4 else cmd
    byopt = rng.random() < 0.15
    if byopt:
        opts.append(["--command", cmd])
        opts.append(["--simulatorModel", "m.pomdp"])
        pos = []
    else:
        pos = [[word], ["m.pomdp"]]
    merged = []
    o = list(opts)
    p = list(pos)
    while o or p:
        if p and (not o or rng.random() < len(p) / (len(o) + len(p))):
            merged.append(p.pop(0))
        else:
            merged.append(o.pop(0))
    mfile = "m.pomdp"
    ddash = not byopt and rng.random() < 0.15
    if ddash:
        # what follows -- is the command and the model, whatever it looks like
        mfile = str(rng.choice(["m.pomdp", "-m.pomdp", "--m.pomdp", "-d.pomdp"]))
        open(os.path.join(d, mfile), "w").write(m.text())
        merged = opts + [["--"]] + [pos[0], [mfile]]
        st.add("runs with an end of options marker")
    if use_file:
        merged.insert(int(rng.integers(0, (len(opts) if ddash else len(merged)) + 1)), [str(rng.choice(["-c", "--config"])), "my.cfg"])
    dflag = exp["debugLevel"] != "1"
    if dflag:
        merged.insert(0 if ddash else len(merged), ["-d"])
        exp["debugLevel"] = "1"
    a = [x for g in merged for x in g]
    # make what was chosen cheap and runnable
    r = go(d, a)
    fs["args"] = " ".join(a)
    fs["m.pomdp"] = m.text()
    if r.timeout:
        raise Inconclusive("watchdog")
    got = params(r.out)
    if got is None:
        if r.rc == 0:
            raise Violation("debugLevel 1 does not print the settings", r.brief(), fs)
        raise Violation("a valid combination of settings is refused before the run starts", r.brief(), fs)
    exp["command"] = cmd
    exp["simulatorModel"] = mfile
    if cmd == "solve" and exp["policyOutputFile"] == "-":
        exp["policyOutputFile"] = "out.policy"
    if cmd == "benchmark" and exp["policyOutputFile"] == "-":
        exp["policyOutputFile"] = "none"
    if byopt:
        exp["command"] = cmd
    g = dict(got[0])
    g.pop("binaryName", None)
    for f in sorted(set(exp) | set(g)):
        if exp.get(f) != g.get(f):
            src = "default"
            raise Violation("a setting does not have the value its sources give it",
                            "%s: in effect %r, given %r\nargs: %s" % (f, g.get(f), exp.get(f), " ".join(a)), fs)
    conflict = exp["terminateRegretBound"] == "0"
    if r.rc != 0 or r.san:
        # the only reason left for an error is a combination that is documented as invalid
        if not re.search(r"ERROR", r.err) or r.san:
            raise Violation("a run with valid settings ends abnormally: %s" % r.sig(), r.brief(), fs)
        if not documented_conflict(exp, m, r.err):
            raise Violation("a valid combination of settings is refused", r.brief(), fs)
        st.add("documented conflicts")
    else:
        st.add("layered runs to the end")
    st.add("settings compared", len(exp))
    st.add("settings given", len(opts) + (len(items) if use_file else 0))
    return {"args": " ".join(a), "file": bool(use_file)}


def documented_conflict(exp, m, err):
    if exp["useMaxPlanesSupportList"] == "1" and exp["useMaxPlanesMasking"] == "0":
        return True
    if exp["useMaxPlanesExtraPruning"] == "1" and exp["useMaxPlanesCache"] == "0":
        return True
    if exp["backupScriptInputDir"] != "none":
        pass
    if exp["useFastModelParser"] == "1":
        return True  # the generated file may use constructs outside the fast subset
    return False


BADV = {"int": ["zork", "1.5", "1x", "x1", "0x10", "99999999999999999999", "1e3", "--", "-", "1,000", "3000000000"],
        "dbl": ["zork", "1e", "1,5", "1.2.3", "nan", "0.5x", "-", "--5"],
        "bool": ["zork", "2", "true", "yes", "-1", "on", "01", "1.0", "10"],
        "enum": ["zork", "none", "--", "x"]}


def bad(c, st, rng, d, D, m):
    u = rng.random()
    fs = {"m.pomdp": m.text()}
    if u < 0.15:
        f = str(rng.choice(["zork", "searchstrategy", "SearchStrategy", "searchStrategy2", "terminateRegretBounds", "alias", "c", "-f"]))
        v = "1"
        typ = "unknown field"
        cmd = str(rng.choice(["solve", "benchmark", "evaluate"]))
    else:
        typ = str(rng.choice(["int", "dbl", "bool", "enum"]))
        f = str(rng.choice({"int": INT + ["customMDPNumStates"], "dbl": DBL, "bool": BOOL, "enum": list(ENUM)}[typ]))
        v = str(rng.choice(BADV[typ]))
        if typ == "enum":
            good_ = [x for x in ENUM[f] if len(x) > 2]
            if good_ and rng.random() < 0.6:
                g = str(rng.choice(good_))
                v = str(rng.choice([g.upper(), g[:-1], g + "x", " ".join([g])[::-1], g.capitalize() if g.islower() else g.lower()]))
            if v in ENUM[f] + ["convex"]:
                v = "zork"
        if f == "maintainLowerBound" and v in ("-",):
            v = "2"
        cmd = str(rng.choice(USED.get(f, ["solve", "benchmark", "evaluate"])))
        if typ == "int" and f in ("evaluationTrialsPerEpoch",) and rng.random() < 0.3 and cmd != "solve":
            v = str(rng.choice(["0", "-3"]))
    model_ = ["m.pomdp"]
    extra = []
    if f == "customMDPNumStates":
        cmd, model_ = str(rng.choice(["solve", "benchmark"])), ["custom"]
        extra = ["-o", "none"]
        if rng.random() < 0.3:
            v = str(rng.choice(["0", "-2"]))
    if cmd == "evaluate":
        open(os.path.join(d, "out.policy"), "w").write(
            '{\n  policyType => "MaxPlanesLowerBound",\n  numPlanes => 1,\n  planes => [\n    {\n      action => 0,\n      numEntries => %d,\n'
            "      entries => [\n%s\n      ]\n    }\n  ]\n}\n" % (m.nS, ",\n".join("        %d, 0" % i for i in range(m.nS))))
    src = "file" if rng.random() < 0.5 or f in ("-f", "c") else "command line"
    a = [cmd, "-p", "%.17g" % (0.05 * max(1e-3, abs(m.R).max()) / (1 - min(m.discount, 0.99)))] + extra
    if f == "terminateRegretBound":
        a = a[:1] + a[3:]
    if f in ("searchStrategy",):
        pass
    if cmd != "solve":
        a += ["-i", "4"] if f != "evaluationTrialsPerEpoch" else []
    a += ["--terminateNumBackups", "10"] if f != "terminateNumBackups" and cmd != "evaluate" else []
    # a setting of a valid value elsewhere does not excuse the bad one that overrides it
    if src == "file":
        line = "%s %s" % (f, v)
        if f == "alias":
            line = "alias zork"
        fs["my.cfg"] = cfg_text(rng, [("debugLevel", "0")]) .rstrip("\n") + "\n" + line + "\n"
        open(os.path.join(d, "my.cfg"), "w").write(fs["my.cfg"])
        a += ["-c", "my.cfg"]
    else:
        a += ["--" + f, v]
    a += model_
    r = go(d, a)
    what = "an unknown field (%s)" % src if typ == "unknown field" else "a malformed value of a %s setting (%s)" % (
        {"int": "integer", "dbl": "number", "bool": "0/1", "enum": "choice"}[typ], src)
    refused(r, what, fs, " ".join(a) + "   [%s %s]" % (f, v))
    st.add("bad settings refused")
    st.seen("bad setting", (f, v, src, cmd))
    return {"field": f, "value": v, "source": src, "command": cmd}


def good(c, st, rng, d, D, m):
    """every documented value of a choice is accepted where it applies"""
    f = str(rng.choice(list(ENUM) + BOOL))
    v = str(rng.choice(ENUM[f])) if f in ENUM else str(rng.integers(2))
    fs = {}
    cmd = str(rng.choice(["solve", "benchmark"]))
    extra = []
    lay = models.layered_pomdp(rng, 0.9)
    name, text = "m.pomdp", lay.text()
    if f == "modelType":
        if v == "mdp":
            name, text = "m.dat", models.rnd_mdp(rng, "mdp_ergodic").text() if "mdp_ergodic" in models.MDP_FAMILIES else None
        elif v == "racetrack":
            from zv import racetrack
            name, text = "m.dat", racetrack.rnd_track(rng).text()
        elif v == "custom":
            name, text = "anything", ""
        elif v == "pomdp":
            name = "m.dat"
        if v in ("mdp", "racetrack", "custom") and cmd == "solve":
            extra += ["-o", "none"]
    if f == "searchStrategy":
        if v in ("rtdp", "lrtdp", "hdp"):
            extra += ["--maintainLowerBound", "1"]
        if v == "script":
            open(os.path.join(d, name), "w").write(text)
            r = go(d, ["benchmark", "-i", "3", "--terminateNumBackups", "20", "--useLogBackups", "1", name])
            if not r.ok:
                raise Violation("a documented value is refused", r.brief(), fs)
            os.mkdir(os.path.join(d, "logs"))
            for x in ("stateIndex.log", "backups.log"):
                os.rename(os.path.join(d, x), os.path.join(d, "logs", x))
            extra += ["--backupScriptInputDir", "logs", "--maintainLowerBound", "1"]
    if f == "maintainLowerBound" and v == "0":
        extra += ["-s", str(rng.choice(["rtdp", "lrtdp", "hdp"]))] + (["-o", "none"] if cmd == "solve" else [])
    if f == "lowerBoundRepresentation" and v == "point" and cmd == "solve":
        extra += ["-o", "none"]
    if f == "maintainUpperBound" and v == "0":
        return None
    if f == "useMaxPlanesMasking" and v == "0":
        extra += ["--useMaxPlanesSupportList", "0"]
    if f == "useMaxPlanesCache" and v == "0":
        extra += ["--useMaxPlanesExtraPruning", "0"]
    if f == "policyType":
        if v.startswith("ls"):
            return None
        cmd = "evaluate"
        if v == "maxPlanes":
            t = ('{\n  policyType => "MaxPlanesLowerBound",\n  numPlanes => 1,\n  planes => [\n    {\n      action => 0,\n      numEntries => %d,\n'
                 "      entries => [\n%s\n      ]\n    }\n  ]\n}\n" % (lay.nS, ",\n".join("        %d, 0" % i for i in range(lay.nS))))
        else:
            t = "0\n%s\n" % " ".join("0" for i in range(lay.nS))
        open(os.path.join(d, "out.policy"), "w").write(t)
    if f == "useFastModelParser" and v == "1":
        text = re.sub("", "", text)
    open(os.path.join(d, name), "w").write(text)
    a = [cmd] + extra + ["--" + f, v]
    if cmd != "evaluate":
        a += ["--terminateNumBackups", "60"]
    if cmd != "solve":
        a += ["-i", "5"]
    a += [name]
    if f == "useFastModelParser" and v == "1":
        return None
    r = go(d, a)
    if r.timeout:
        raise Inconclusive("watchdog")
    if not r.ok:
        raise Violation("a documented value is not accepted: %s %s" % (f, v), "%s\n%s" % (" ".join(a), r.brief()), {name: text})
    st.add("documented values accepted")
    st.seen("documented value", (f, v, cmd))
    return {"field": f, "value": v, "args": " ".join(a)}


def files(c, st, rng, d, D, m):
    """output files carry the names given, and no others are written"""
    cmd = str(rng.choice(["solve", "benchmark", "evaluate"]))
    names = {}
    pool = ["x%d" % i for i in range(30)] + ["sub/y%d" % i for i in range(30)] + ["a-b.%d" % i for i in range(9)]
    pool = list(rng.permutation(pool))
    for f in FILES:
        if rng.random() < 0.6:
            names[f] = str(pool.pop())
    logb = int(rng.integers(2))
    a = [cmd]
    cfg = []
    for f, v in names.items():
        if rng.random() < 0.5:
            a += ["--" + f, v] if f != "policyOutputFile" or rng.random() < 0.5 else ["-o", v]
        else:
            cfg.append((f, v))
    eff = dict(D["f"])
    eff.update(names)
    if cmd != "evaluate":
        a += ["--terminateNumBackups", "15", "--useLogBackups", str(logb), "-p", "%.17g" % (0.05 * max(1e-3, abs(m.R).max()))]
    if cmd != "solve":
        a += ["-i", "4"]
    if cfg:
        open(os.path.join(d, "my.cfg"), "w").write(cfg_text(rng, cfg))
        a += ["-c", "my.cfg"]
    if cmd == "evaluate":
        open(os.path.join(d, "in.alpha"), "w").write("0\n%s\n" % " ".join("0" for _ in range(m.nS)))
        a += ["--policyType", "cassandraAlpha", "--policyInputFile", "in.alpha"]
    a += ["m.pomdp"]
    before = listing(d)
    r = go(d, a)
    fs = {"m.pomdp": m.text(), "args": " ".join(a)}
    if r.timeout:
        raise Inconclusive("watchdog")
    if not r.ok:
        raise Violation("a run with named output files fails: %s" % r.sig(), r.brief(), fs)
    got = listing(d) - before
    must, may = set(), set()
    pol = eff["policyOutputFile"]
    if cmd == "solve":
        must.add("out.policy" if pol == "-" else pol)
    elif cmd == "benchmark":
        must |= {pol} if pol not in ("-", "none") else set()
        must |= {eff["evaluationOutputFile"], eff["boundsOutputFile"], eff["simulationTraceOutputFile"], eff["scoresOutputFile"]}
        must |= {eff["storageOutputFile"]} if eff["storageOutputFile"] != "none" else set()
    else:
        must |= {eff["simulationTraceOutputFile"], eff["scoresOutputFile"]}
    if cmd != "evaluate":
        if logb:
            must |= {eff["stateIndexOutputFile"], eff["backupsOutputFile"], eff["boundValuesOutputFile"]}
        if eff["qValuesOutputFile"] != "none":
            must.add(eff["qValuesOutputFile"])
            may.add(eff["stateIndexOutputFile"])
    may.add(eff["boundsOutputFile"])
    if must - got:
        raise Violation("an output file does not carry the name it was given", "missing %s, written %s\n%s" %
                        (sorted(must - got), sorted(got), r.brief()), fs)
    if got - must - may:
        raise Violation("a file is written that was not asked for", "%s\n%s" % (sorted(got - must - may), r.brief()), fs)
    st.add("output files found under their names", len(must))
    return {"args": " ".join(a), "files": sorted(got)}


def listing(d):
    out = set()
    for p, _, fn in os.walk(d):
        for f in fn:
            if not f.startswith(".zv"):
                out.add(os.path.relpath(os.path.join(p, f), d))
    return out


def args(c, st, rng, d, D, m):
    names = list(D["f"])
    f = str(rng.choice([n for n in names if n not in ("command", "simulatorModel")]))
    base = ["--terminateNumBackups", "5"]
    shapes = {
        "an option without its value": ["solve", "m.pomdp"] + base + ["--" + f],
        "an alias without its value": ["solve", "m.pomdp"] + base + [str(rng.choice(["-p", "-s", "-t", "-o", "-i", "-l", "-u"]))],
        "a third argument": ["solve", "m.pomdp", "extra"] + base,
        "an unknown command": [str(rng.choice(["solv", "SOLVE", "none", "run", "m.pomdp"])), "m.pomdp"],
        "no command": base,
        "no model": [str(rng.choice(["solve", "benchmark", "evaluate"]))] + base,
        "an unknown flag": ["solve", str(rng.choice(["-q", "-x", "-zz", "-"])), "m.pomdp"],
        "a configuration file that does not exist": ["solve", "m.pomdp", "-c", "nothere.cfg"],
        "-c without its value": ["solve", "m.pomdp", "-c"],
        "--genConfig without its value": ["--genConfig"],
        "a field without a value in the file": ["solve", "m.pomdp", "-c", "bad.cfg"],
        "an overlong line in the file": ["solve", "m.pomdp", "-c", "long.cfg"],
        "a model of unknown type": ["solve", "m.unknown"],
        "a model that does not exist": ["solve", "nothere.pomdp"],
        "a POMDP representation for an MDP": ["solve", "-o", "none", "m.mdp"] + [["-l", "maxPlanes"], ["-u", "sawtooth"]][int(rng.integers(2))],
    }
    what = str(rng.choice(list(shapes)))
    a = shapes[what]
    open(os.path.join(d, "bad.cfg"), "w").write("debugLevel 0\n%s\n" % f)
    open(os.path.join(d, "long.cfg"), "w").write("debugLevel 0\npolicyOutputFile %s\n" % ("x" * int(rng.choice([1100, 5000]))))
    open(os.path.join(d, "m.unknown"), "w").write(m.text())
    open(os.path.join(d, "m.mdp"), "w").write(models.rnd_mdp(rng, models.MDP_FAMILIES[0]).text())
    r = go(d, a)
    refused(r, what, {"args": " ".join(a)}, " ".join(a))
    st.seen("argument error", what)
    return {"shape": what, "args": " ".join(a)}


def effect(c, st, rng, d, D, m):
    """a setting takes effect with the value of its last source"""
    w = str(rng.choice(["precision", "trials", "steps", "traces", "backups", "timeout"]))
    lo, hi = [(0.5, 2.0), (3, 8), (1, 4), (1, 5), (2, 40), (0.5, 3.0)][["precision", "trials", "steps", "traces", "backups", "timeout"].index(w)]
    field = {"precision": "terminateRegretBound", "trials": "evaluationTrialsPerEpoch", "steps": "evaluationMaxStepsPerTrial",
             "traces": "simulationTracesToLogPerEpoch", "backups": "terminateNumBackups", "timeout": "terminateWallclockSeconds"}[w]
    vals = [round(float(rng.uniform(lo, hi)), 3) if isinstance(lo, float) else int(rng.integers(lo, hi + 1)) for _ in range(3)]
    src = int(rng.integers(3))  # 0: file only, 1: command line over file, 2: last of two on the command line
    a = []
    final = vals[src]
    open(os.path.join(d, "my.cfg"), "w").write("%s %s\n" % (field, vals[0]))
    a += ["-c", "my.cfg"]
    for k in range(1, src + 1):
        a += ["--" + field, str(vals[k])]
    lay = models.layered_pomdp(rng, 0.9)
    sc = float(np.abs(lay.R).max())
    fs = {"m.pomdp": lay.text(), "args": " ".join(a)}
    open(os.path.join(d, "m.pomdp"), "w").write(lay.text())
    if w in ("trials", "steps", "traces"):
        a = ["benchmark"] + a + ["--terminateNumBackups", "10", "m.pomdp"]
        if w != "traces":
            a += ["--simulationTracesToLogPerEpoch", "-1"]
        if w != "trials":
            a += ["-i", "6"]
        r = go(d, a)
        if not r.ok:
            raise Violation("a run with valid settings fails: %s" % r.sig(), r.brief(), fs)
        tr = logs.sim_traces(os.path.join(d, "sim.plot"))
        got = len(tr)
        if w == "steps":
            got = max(len(t["steps"]) for t in tr)
            if all(t["terminated"] for t in tr):
                got = min(got, final) if got <= final else got
                final = got
        if w == "traces":
            final = min(final, 6)
        if got != final:
            raise Violation("a setting does not take effect", "%s %s: observed %s\n%s" % (field, final, got, r.brief()), fs)
    elif w == "precision":
        a = ["solve"] + a + ["m.pomdp"]
        r = go(d, a)
        m_ = re.search(r"reached target regret bound of (\S+)", r.out)
        if not r.ok or not m_ or abs(float(m_.group(1)) - final) > 1e-5 * final:
            raise Violation("a setting does not take effect", "%s %s\n%s" % (field, final, r.brief()), fs)
    elif w == "backups":
        a = ["solve", "-p", "1e-12"] + a + ["m.pomdp"]
        r = go(d, a)
        m_ = re.search(r"reached limit of (\d+) backups", r.out)
        if not r.ok or (m_ and int(m_.group(1)) != final):
            raise Violation("a setting does not take effect", "%s %s\n%s" % (field, final, r.brief()), fs)
        if not m_:
            return None
    else:
        a = ["solve", "-p", "1e-12"] + a + ["m.pomdp"]
        r = go(d, a, env={"ZV_CLOCK": "400"})
        m_ = re.search(r"passed specified timeout of (\S+) seconds", r.out)
        if not r.ok or (m_ and abs(float(m_.group(1)) - final) > 1e-5 * final):
            raise Violation("a setting does not take effect", "%s %s\n%s" % (field, final, r.brief()), fs)
        if not m_:
            return None
    st.add("settings seen to take effect")
    st.seen("effect", (w, src))
    return {"setting": field, "source": src, "value": final}


def main():
    return run_check("C17", cases(), run,
                     "a case is non-trivial when a setting's value, refusal or effect was observed")
