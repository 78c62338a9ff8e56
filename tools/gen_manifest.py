#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("trace oracle: reported bounds against independently solved reference models", "Random models of every kind, all strategies and representations, real sanitizer-built program."),
 "C02": ("log oracle: every node's and action's bounds against reference values", "Every node of the final search graph of each run is judged."),
 "C03": ("trace oracle: stop point recomputed from the trial-by-trial log", "Virtual clock makes every trial visible; thresholds are drawn from the run's own trajectory."),
 "C04": ("online trace monitor: monotone bounds, conserved counters", "Every consecutive pair of reported lines, plus backup log and state index."),
 "C05": ("policy oracle: exact expansion of written policies over reachable beliefs", "Planes are judged against reference values and the policy is executed exactly."),
 "C06": ("trace oracle: executed actions against the argmax denoted by the policy file", "Random policy files in both formats and random beliefs reached in simulation."),
 "C07": ("differential oracle: parsed model dump against a reference denotation", "Random files in random styles of the whole grammar; sanitizers on."),
 "C08": ("differential monitor: fast and standard parser on the same file", "Dumps are compared bit for bit; files outside the subset must be refused."),
 "C09": ("sanitizers and crash monitor under hostile inputs", "ASan, UBSan and libstdc++ assertions, all reports fatal; mutated and crafted inputs."),
 "C10": ("AddressSanitizer, UndefinedBehaviorSanitizer and container assertions under option-matrix stress", "Absence of reports on the explored runs only."),
 "C11": ("oracle: dense Bayes filter against belief updates of the real model object", "Random walks over random models incl. extreme probabilities."),
 "C12": ("oracle: dense arithmetic against each sparse kernel, sanitizers on", "Random operands incl. empty, aliased, cancelling."),
 "C13": ("oracle: independent re-implementation of the racetrack and chain rules", "Full state space of random tracks compared."),
 "C14": ("metamorphic monitor: paired runs with different options", "Intervals of paired runs must overlap and contain the reference value."),
 "C15": ("statistical trace oracle: reported rewards against simulated traces and exact policy values", "Deterministic seeds; 6-sigma limits."),
 "C16": ("trace oracle: simulated steps against the model, frequencies, injected random-number extremes", "Random generator interposed."),
 "C17": ("oracle: configuration layering observed through behaviour", "Random stacks of config files, command line options and aliases."),
 "C18": ("fault injection: signals and timeouts at chosen points, policy file oracle", "SIGINT injected at counted program points."),
 "C19": ("log oracle: replaying a backup log reproduces the run", "Random models and strategies."),
 "C20": ("crash-point enumeration: process killed at every file-system call of a policy rewrite", "Every write-like system call of the run."),
 "C21": ("trace oracle: undiscounted layered models with exact tree solutions", "Random terminating models."),
 "C22": ("oracle: independent re-implementation of the survey rules", "Random maps through the real simulator and solver."),
 "C24": ("oracle: dense Bayes filter and policy-file semantics against interleaved library executives", "Random call sequences on up to three executives at once; sanitizers on."),
 "C25": ("fault injection: failing and partial writes at chosen operations, outputs compared with an unhindered run", "Every kind of output and operation is hit; file operations interposed at link time, file size limits for the rest."),
 "C26": ("metamorphic monitor: the same run under other memory contents, clocks, draws and logging options", "Logs are compared line by line; sanitizer fill bytes differ between runs."),
    "C27": ("metamorphic monitor: runs on transformed presentations of one POMDP compared belief by belief, and with certified point-based bounds", "Models of tens to hundreds of states, where no exact reference exists; sanitized build."),
 "C28": ("trace oracle: every simulated decision against logged action values and independent lookahead on the written policy", "Random models, strategies and ways to end; sanitized build."),
 "C29": ("trace oracle: menu sessions of the sanitized program (maps, marginals, observations, rewards, actions, evaluations, written model) against an independent model of the domain and its heuristics", "Random and hostile sessions, all policy types, write failures."),
 "C23": ("oracle: cached model against its source along random walks", "Random models."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t, n = T[p]
        checks.append({"property": p, "quick_cmd": "python3-vt checks/run.py %s" % p,
                       "thorough_cmd": "python3-vt checks/run.py %s thorough" % p,
                       "technique": t, "level": {"C20": "fault_enumeration", "C25": "fault_enumeration"}.get(p, "exploration"), "level_note": n + " Trusts the reference models in zv/ and the compiler's instrumentation."})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q zv checks",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation is by compiler flags, link-time interposition (zv/shim.c) and the program's own logs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
