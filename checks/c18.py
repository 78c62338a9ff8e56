"""C18: an interrupted or timed-out solve still ends with a complete, valid result."""
import os, pty, re, select, signal, subprocess, time
import numpy as np
from zv import build, logs, workload
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, BASE_ENV, SAN_RE
from checks.c05 import judge_policy

N = 6000 if THOROUGH else 1000
KINDS = ["pomdp", "pomdp", "layered", "pomdp", "mdp", "pomdp", "track", "layered", "pomdp", "custom"]
MODES = ["sig", "async", "timeout", "storm", "sig", "async", "pty", "timeout"]


def cases():
    rng = np.random.default_rng([SEED, 1818])
    cs = workload.bench_cases(N, 1818, kinds=KINDS)
    for i, c in enumerate(cs):
        if c["kind"] in ("pomdp", "layered"):
            if c.get("lb") == "point":
                c.pop("lb"), c.pop("ub", None)
            if c["strat"] not in ("frtdp", "hsvi"):
                c["mlb"] = 1
        c["mode"] = MODES[int(rng.integers(len(MODES)))]
        c["arm"] = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 22, 35, 50, 80, 120]))
        c["us"] = int(rng.choice([0, 50, 200, 500, 1000, 3000, 10000, 30000]))
        c["t"] = float(rng.choice([0.001, 5, 11, 12, 23, 34, 50, 100, 150, 400]))
        c["id"] += "-" + c["mode"]
    return cs


def on_pty(exe, a, d, delay, timeout):
    """runs with a terminal, as a user does, and presses control-C after the first bounds line"""
    mfd, sfd = pty.openpty()
    err = open(os.path.join(d, ".zv_err"), "wb+")
    e = dict(BASE_ENV, ZV_SEED="3")
    p = subprocess.Popen([exe] + a, cwd=d, env=e, stdout=sfd, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
    os.close(sfd)
    out = b""
    sent = None
    end = time.time() + timeout
    to = False
    while True:
        left = end - time.time()
        if left <= 0:
            to = True
            os.killpg(p.pid, signal.SIGKILL)
            break
        wait = left
        if sent is None and b" calls to solver" in out:
            sent = time.time() + delay
        if sent and sent > 0:
            wait = min(wait, max(0, sent - time.time()))
            if time.time() >= sent:
                try:
                    os.kill(p.pid, signal.SIGINT)
                except ProcessLookupError:
                    pass
                sent = -1
        r, _, _ = select.select([mfd], [], [], wait)
        if r:
            try:
                b = os.read(mfd, 65536)
            except OSError:
                b = b""
            if not b:
                break
            out += b
    rc = p.wait()
    os.close(mfd)
    err.seek(0)
    er = err.read().decode("latin1")
    err.close()
    from zv.run import Res
    return Res([exe] + a, d, rc, out.decode("latin1").replace("\r\n", "\n"), er, to), sent == -1


def run(c, st):
    try:
        return once(c, st)
    except Violation as v:
        if not v.key.startswith("a run ends without"):
            raise
        # seen in 15 cases of one run, never again in thousands: output of runs in a sandbox that was stalled just then.
        # A defect recurs.
        for i in range(8):
            time.sleep(0.5 * (i + 1))
            try:
                once(c, st)
            except Violation:
                raise v from None
        raise Inconclusive("output missing once")


def once(c, st):
    w = workload.Work(c)
    mode = c["mode"]
    with Scratch() as d:
        w.write(d)
        prec = 1e-6 * w.scale()
        pol = w.pomdp
        a = ["solve"] + w.args() + ["-p", "%.17g" % prec, "--terminateNumBackups", "3000" if THOROUGH else "1200"]
        a += ["-o", "o.policy" if pol else "none"]
        env = {"ZV_SEED": c["rs"], "ZV_CLOCK": "11000", "ZV_TRACE": os.path.join(d, "trace")}
        if mode == "timeout":
            a += ["-t", "%g" % c["t"]]
        elif mode != "pty":
            env["ZV_SIG_ARM"] = c["arm"]
            if mode in ("async", "storm"):
                env["ZV_SIG_DELAY"] = c["us"]
            if mode == "storm":
                env["ZV_SIG_REPEAT"] = 300
        a += [w.fname]
        sent = None
        if mode == "pty":
            r, sent = on_pty(build.ensure("san").exe(), a, d, c["us"] * 1e-6, 120)
        else:
            r = logs.zmdp(d, a, env=env, timeout=120)
        files = dict(w.files(), args=" ".join(a) + "\n" + str(env))

        def bad(what, detail=""):
            raise Violation(what, "%s\n%s\nstdout: %s" % (detail, r.brief(), r.out[-1500:]), files)
        caught = "caught SIGINT" in r.out
        got = "received SIGINT" in r.out + r.err
        if mode != "timeout" and r.rc == -signal.SIGINT:
            if sent or mode != "pty":
                bad("a run interrupted during the search does not end with a result")
            raise Inconclusive("no signal")
        if r.timeout:
            bad("a run does not stop after SIGINT" if got else "watchdog")
        logs.must_end_ok(r, "an interrupted or timed-out solve", files)
        lines = logs.solve_lines(r.out)
        end = re.search(r"^\d+ terminating run; (.*)$", r.out, re.M)
        if not lines or not end:
            bad("a run ends without its final bounds or its reason")
        if not re.search(r"^\d+ done$", r.out, re.M):
            bad("a run that exits successfully did not finish")
        if got:
            st.add("runs that received SIGINT")
            n = 0
            tr = os.path.join(d, "trace")
            at = re.search(r"sigint at (\S+)", open(tr).read()) if os.path.exists(tr) else None
            if at and mode != "pty":
                now = float(re.search(r"now (\S+)", open(tr).read()).group(1))
                done = int(re.search(r"^(\d+) done$", r.out, re.M).group(1))
                when = done - (now - float(at.group(1)))
                n = sum(x[0] > when + 2 for x in lines)
                st.add("stops compared with the time of the signal")
            if n > 1:
                bad("the search went on for more than the current trial after SIGINT", "%d more trials" % (n - 1))
            if not caught and "reached" not in end.group(1) and "converged" not in end.group(1):
                bad("a run interrupted by SIGINT gives another reason for ending", end.group(0))
        if caught and not got:
            bad("a run claims to have been interrupted but was not")
        if mode == "timeout":
            t = c["t"]
            el = [x[0] for x in lines]
            if any(x >= t for x in el[:-1]):
                bad("a run continues after its time limit", str(el))
            if "timeout" in end.group(1):
                st.add("runs that timed out")
                if el[-1] < int(t):
                    bad("a run claims to have timed out before its limit", "%s, limit %g" % (el, t))
            elif el[-1] > t + 1 and "reached" not in end.group(1) and "converged" not in end.group(1):
                bad("a run past its time limit gives another reason for ending", end.group(0))
        lb, ub = lines[-1][2], lines[-1][3]
        st.seen("trials done", len(lines))
        st.seen("end", re.sub(r"[-+0-9.e]+", "#", end.group(1))[:40] + mode)
        digits = 5.1e-5
        w.refine(w.start(), 1e-4 * w.scale(), 200)
        lo, up = w.interval(w.start())
        tol = 1e-6 * w.scale() + digits
        if w.has_lb and lb > up + tol:
            bad("the lower bound reported at the end exceeds the optimal value", "%r > %r" % (lb, up))
        if ub < lo - tol:
            bad("the upper bound reported at the end is below the optimal value", "%r < %r" % (ub, lo))
        s = {"case": c["id"], "trials": len(lines), "end": end.group(1), "bounds": [lb, ub]}
        if pol:
            p = os.path.join(d, "o.policy")
            if not os.path.exists(p):
                bad("an interrupted or timed-out run ends without writing the requested policy")
            s.update(judge_policy(w, p, lb, digits, st, prec, walk=200))
            if c["rs"] % 3 == 0:
                e = logs.zmdp(d, ["evaluate", "--policyInputFile", "o.policy", "-i", "10", "--evaluationMaxStepsPerTrial", "5", w.fname],
                              env={"ZV_SEED": c["rs"]})
                if not e.ok:
                    bad("zmdp evaluate cannot use the policy an interrupted run wrote", e.brief())
                st.add("policies evaluated by zmdp")
            st.add("policies judged")
        if mode not in ("timeout",) and not got:
            return None
        return s


def main():
    return run_check("C18", cases(), run,
                     "a case is non-trivial when the run was interrupted, or had a time limit, and its result was judged")
