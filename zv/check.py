"""Shared shape of a check: cases in a process pool, verdicts, known findings, replay files, evidence."""
import json, os, random, re, shutil, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

from . import build

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Violation(Exception):
    """key: stable description used for matching known findings; detail: text; files: {name: text}"""

    def __init__(self, key, detail="", files=None):
        super().__init__(key)
        self.key, self.detail, self.files = key, detail, files or {}

    def __reduce__(self):
        return (Violation, (self.key, self.detail, self.files))


class Inconclusive(Exception):
    pass


def known():
    """known_findings.txt lines: 'property=<id> key=<regex over the violation key> # what fails' """
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=/(.*)/ :: (.*)$", line.rstrip("\n"))
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


class Stats(dict):
    """Counters summed over cases, and sets of distinct things seen (kept as sets under 'set:' keys)."""

    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def seen(self, k, v):
        self.setdefault("set:" + k, set()).add(v)

    def merge(self, o):
        for k, v in o.items():
            if k.startswith("set:"):
                self.setdefault(k, set()).update(v)
            elif k.startswith("max:"):
                self[k] = max(self.get(k, v), v)
            else:
                self[k] = self.get(k, 0) + v

    def mx(self, k, v):
        self["max:" + k] = max(self.get("max:" + k, v), v)


def _one(fn, case, again=True):
    st = Stats()
    try:
        sample = fn(case, st)
        return ("ok", case, sample, st)
    except Violation as v:
        return ("violation", case, (v.key, v.detail, v.files), st)
    except Inconclusive as v:
        return ("inconclusive", case, str(v), st)
    except (ValueError, LookupError, ArithmeticError, AttributeError, TypeError, FileNotFoundError):
        if again:
            return _one(fn, case, False)
        # the same twice: the outputs are not what every run of a program that keeps its formats writes
        tb = traceback.format_exc()
        e = sys.exc_info()[1]
        return ("violation", case, ("the outputs of the run cannot be interpreted (%s)" % type(e).__name__, tb[-3000:], {}), st)
    except Exception:
        return ("error", case, traceback.format_exc(), st)


def run_check(pid, cases, fn, rule, level="exploration", nontrivial=None, assumptions=(), kinds=("san",),
              probes=(), workers=8, min_ok=0.5, finish=None, programs=()):
    """cases: list of picklable case descriptions (each holds everything needed to reproduce it).
    fn(case, stats) -> sample (json-able) or raises Violation / Inconclusive."""
    t0 = time.time()
    try:
        for k in kinds:
            t = build.ensure(k)
            if k == "san":
                for p in probes:
                    t.probe(p)
                for sub, name in programs:
                    t.program(sub, name)
    except build.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    tb = time.time() - t0
    if os.environ.get("ZV_ONLY"):
        want = os.environ["ZV_ONLY"]
        cases = [c for c in cases if want in json.dumps(c, default=str)]
    stats = Stats()
    viol, incon, errs, samples, nok = [], [], [], [], 0
    keys_ok = set()
    todo = list(cases)
    random.Random(SEED).shuffle(todo)
    if workers <= 1 or os.environ.get("ZV_SERIAL"):
        it = (_one(fn, c) for c in todo)
        for r in it:
            nok += _collect(r, stats, viol, incon, errs, samples, keys_ok)
    else:
        with ProcessPoolExecutor(max_workers=workers) as ex:
            fs = [ex.submit(_one, fn, c) for c in todo]
            for f in as_completed(fs):
                try:
                    r = f.result()
                except BrokenProcessPool as e:
                    errs.append(("pool", str(e)))
                    break
                nok += _collect(r, stats, viol, incon, errs, samples, keys_ok)
    if finish:
        try:
            finish(stats)
        except Violation as v:
            viol.append(({"id": "aggregate"}, (v.key, v.detail, v.files)))
    kn = known()
    new, listed = [], {}
    for case, (key, detail, files) in viol:
        for p, rx, what in kn:
            if p == pid and rx.search(key):
                listed.setdefault(what, []).append(key)
                break
        else:
            new.append((case, key, detail, files))
    for what in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    cov = {
        "evaluations": len(cases),
        "distinct_nontrivial": len(keys_ok),
        "rule": rule,
        "samples": samples[:6] or ["(no case ended conclusively)"],
        "conclusive": nok,
        "inconclusive": len(incon),
        "inconclusive_reasons": sorted({str(x[1])[:120] for x in incon})[:8],
        "observed": {},
    }
    for k in sorted(stats):
        if k.startswith("set:"):
            cov["observed"]["distinct " + k[4:]] = len(stats[k])
        elif k.startswith("max:"):
            cov["observed"]["max " + k[4:]] = stats[k]
        else:
            cov["observed"][k] = stats[k]
    ev = {"property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level,
          "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s: %d cases, %d conclusive, %d distinct non-trivial, %d inconclusive, %d errors; build %.0fs total %.0fs" %
          (pid, len(cases), nok, len(keys_ok), len(incon), len(errs), tb, time.time() - t0))
    print("   " + json.dumps(cov["observed"], default=str)[:1500])
    for c, why in incon[:5]:
        print("   inconclusive:", c.get("id") if isinstance(c, dict) else c, str(why)[:200])
    if new:
        groups = {}
        for case, key, detail, files in new:
            groups.setdefault(key, []).append((case, detail, files))
        rep = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(rep, ignore_errors=True)
        for i, (key, items) in enumerate(sorted(groups.items(), key=lambda kv: -len(kv[1]))[:8]):
            case, detail, files = items[0]
            d = os.path.join(rep, "%02d" % i)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "case.json"), "w") as f:
                json.dump({"property": pid, "seed": SEED, "key": key, "occurrences": len(items), "case": case,
                           "detail": detail}, f, indent=1, default=str)
            for n, txt in files.items():
                open(os.path.join(d, n), "w", encoding="latin1", errors="replace").write(txt)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.join(d, "case.json")))
            print("   %s (x%d)\n   %s" % (key, len(items), detail[:1500].replace("\n", "\n   ")))
        return 1
    if errs:
        print("HARNESS ERROR:", errs[0])
        return 2
    if nok < min_ok * len(cases):
        print("TOO FEW CONCLUSIVE CASES")
        return 3
    return 0


def _collect(r, stats, viol, incon, errs, samples, keys_ok):
    kind, case, payload, st = r
    stats.merge(st)
    if kind == "ok":
        if payload is not None:
            keys_ok.add(json.dumps(payload, sort_keys=True, default=str))
            samples.append(payload)
        return 1
    if kind == "violation":
        viol.append((case, payload))
        return 1
    if kind == "inconclusive":
        incon.append((case, payload))
    else:
        errs.append((case, payload))
    return 0
