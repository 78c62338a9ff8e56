#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Reported bounds always bracket the optimal value of the start state",
  "Whenever 'zmdp solve' or 'zmdp benchmark' reports a lower and an upper bound (every 'bounds [lb .. ub]' line and every bounds.plot line, from the initial heuristic on), lower <= V*(start) <= upper up to floating point rounding, where V* is the optimal expected discounted reward of the model. This holds for every search strategy and every bound representation on POMDP, MDP, racetrack and custom models.",
  ["inputs", "configurations"], "all discounted models (any size, discount, reward sign, sparsity, terminal states) x search strategies x bound representations x every point of the run at which bounds are reported",
  "The 15 tests compare the final bounds of six fixed models with stored numbers; they never look at intermediate bounds and have no oracle for any other model.",
  ["src/bounds/BoundPair.cc", "src/pomdpBounds/*.cc", "src/bounds/Point*Bound.cc", "src/bounds/RelaxUBInitializer.cc", "src/search/*.cc", "src/main/zmdp.cc", "src/main/TestDriver.cc"],
  "admissible initial bounds (blind policies / fast informed bound / relaxation) plus Bellman backups that preserve admissibility", [("bounds.plot", "time, lower, upper, touched, expanded, trials, backups per trial")])

p("C02", "Every logged state and action bound brackets that state's/action's value",
  "In the logs of a benchmark run (boundValues.log and the qValuesOutputFile, with states identified by stateIndex.log) each state's bounds bracket V* at that state or belief and each action's Q bounds bracket Q*, for every state of the search graph, not only the start state. Every state the search touched and logged by a backup appears, with a lower bound never above its upper bound (up to rounding).",
  ["inputs", "configurations"], "all models x strategies x representations x every node the search graph contains at the end of a run",
  "No test reads these logs; wrong bounds at non-root nodes are invisible at the root unless they propagate on one of the fixed models.",
  ["src/bounds/BoundPair.cc", "src/bounds/BoundPairCore.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/SawtoothUpperBound.cc", "src/search/StateLog.cc", "src/main/TestDriver.cc"],
  "per-node bound update after backup; boundValues/qValues are written from the node table at the end of the run")

p("C03", "A run stops exactly when a requested termination condition holds",
  "A run that announces reaching the target regret has upper - lower <= the requested precision at that moment, and on models its strategy is guaranteed to solve (for HSVI, discounted ones) a run without other limits does end, with lrtdp and hdp when the start state is labelled solved. Benchmark runs likewise stop at the first trial boundary at which a lower-bound value, upper-bound value, backup-count or regret condition holds, never before any holds and never later. With none of them satisfied the run keeps going.",
  ["inputs", "configurations", "histories"], "all models, strategies and termination settings, for every trial boundary of the run",
  "Tests fix one precision and wall-clock limit per model and never set the value or backup-count conditions.",
  ["src/main/zmdp.cc", "src/main/TestDriver.cc", "src/search/RTDPCore.cc", "src/search/HDP.cc", "src/search/HSVI.cc", "src/search/FRTDP.cc", "src/search/LRTDP.cc"],
  "solver.planFixedTime returns done / driver compares bounds and counters with config after every trial")

p("C04", "Bounds only tighten and work counters agree with what was done",
  "Along a run with both bounds maintained, the lower bound at the start state never decreases and the upper bound never increases, and trials, backups, touched and expanded counts never decrease. Expanded states never exceed touched states, the backup count equals the number of backups logged, each trial performs at least one backup, and the last bounds.plot line is the final state of a run whose search finished, agreeing with the start state's final entry in the bound log. Times in it never decrease. The storage log's last line counts the planes, points, expanded states and entries the bounds then hold, and its total is their sum.",
  ["inputs", "histories", "configurations"], "all models x strategies x representations x every consecutive pair of reported lines",
  "Tests only look at the last line of bounds.plot on fixed models.",
  ["src/bounds/BoundPairCore.cc", "src/search/RTDPCore.cc", "src/main/TestDriver.cc", "src/search/StateLog.cc"],
  "monotone bound updates (max/min with previous value); counters incremented once per event")

p("C05", "The written policy really earns the lower bound it claims",
  "For the policy file written at the end of a POMDP run, each plane's value at every belief it applies to is at most V* there, and the best plane at the start belief is at least the reported lower bound. Choosing at every belief the action of the best applicable plane earns at least that bound, up to the residual the bound initialisation allows and unless extra pruning was requested. At every belief reachable under that policy some plane applies.",
  ["inputs", "configurations"], "all POMDPs x strategies x maxPlanes options (masking, support list, cache, extra pruning on/off) x all observation sequences under the policy",
  "Tests only check that out.policy exists, and that simulating one model's policy gives roughly the stored mean.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/BlindLBInitializer.cc", "src/bounds/BoundPair.cc", "src/exec/BoundPairExec.cc", "src/main/zmdp.cc"],
  "alpha-vector backups with masks, pruning, and writing of planes to the policy file")

p("C06", "A policy file means the same thing when it is read back",
  "'zmdp evaluate' executes exactly the policy its input file describes: at every belief it takes the action that looks best one step ahead when successor beliefs are valued by the highest applicable plane (maxPlanes) or alpha vector (cassandraAlpha) of the file, with no plane lost, added or altered between file and execution. Re-reading a written policy therefore reproduces the same decisions as the text of the file denotes.",
  ["inputs"], "all policy files in either format (any number and order of planes, masks, negative and large values, comments, blank space) x all beliefs reached in simulation",
  "One three-plane .alpha file and one written policy are evaluated, and only the mean reward is compared within a wide tolerance.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/exec/BoundPairExec.cc", "src/main/zmdp.cc"],
  "policy readers build planes; chooseAction takes the argmax over planes whose mask covers the belief")

p("C07", "Reading a Cassandra-format model yields the model the file denotes",
  "For every well-formed POMDP or MDP file the transition, observation and expected reward functions, discount, start distribution and terminal states used by the solver equal those the format assigns: names, numbers and wildcards, single entries, rows, matrices, uniform, identity, reset, start include/exclude, later statements overriding earlier ones, 'values: cost' as negated reward, comments and free layout. Omitted probabilities and rewards are zero. Distributions within 1e-5 of one are accepted as such, and files whose distributions do not sum to one are rejected.",
  ["inputs", "programs"], "all model files in the format",
  "Tests read six fixed files, mostly in one style, and see the parsed model only through the final bounds.",
  ["src/parsers/pomdp_spec.y", "src/parsers/pomdp_spec.l", "src/parsers/mdp.c", "src/parsers/imm-reward.c", "src/parsers/decision-tree.c", "src/parsers/sparse-matrix.c", "src/parsers/parse_hash.c", "src/parsers/CassandraParser.cc", "src/parsers/sla_cassandra.h"],
  "bison grammar fills intermediate matrices and a reward decision tree, then converts to sparse matrices")

p("C08", "The fast parser and the standard parser load identical models",
  "Every model file accepted by the fast parser (-f) whose numbers are spelled in the standard way is accepted by the standard parser and yields the same discount, sizes, transition, observation, reward, start and terminal-state data, for POMDPs and MDPs. A file outside the fast subset is refused with an error, never silently read as a different model.",
  ["inputs"], "all model files in the fast subset, with statements in any order, repeated entries, comments, blank lines and number formats; and files just outside the subset",
  "One MDP and one POMDP are solved both ways in the tests.",
  ["src/parsers/FastParser.cc", "src/parsers/CassandraParser.cc", "src/common/slaMatrixUtils.h", "src/common/sla.h"],
  "line-based sscanf parser vs. grammar-based parser")

p("C09", "Malformed input of any kind is rejected cleanly",
  "Any bytes given as a model (POMDP, MDP, racetrack, LifeSurvey), policy, alpha-vector, configuration, target, trace or backup-script file, and any well-formed files that do not belong together, lead to normal processing or to an error message and a failure exit status within bounded time, as long as the sizes they declare fit in memory. They never cause a memory error, undefined behaviour, crash, abort or hang.",
  ["inputs"], "all byte strings for each kind of input file, with mutations of valid files, truncations, wrong indices, wrong file kinds and overlong lines",
  "No test feeds a malformed file.",
  ["src/parsers/*", "src/mdps/RaceTrack.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc", "src/common/zmdpConfig.cc", "src/search/StateLog.cc", "src/search/ScriptedUpdater.cc", "src/pomdpModels/lifeSurvey/LSModelFile.cc"],
  "readers validate syntax and indices before using them")

p("C10", "Valid runs are free of memory errors and undefined behaviour",
  "On valid models and options every command (solve, benchmark, evaluate) under every search strategy, representation and speedup option runs to its normal end without out-of-bounds access, use of freed or uninitialised memory, signed overflow or other undefined behaviour, assertion failure or unexpected error exit.",
  ["inputs", "configurations"], "all valid models x commands x strategies x representations x option combinations",
  "The tests run an uninstrumented optimised binary, where most such errors leave the answer unchanged.",
  ["src"], "all native code on the solve/benchmark/evaluate paths")

p("C11", "Beliefs follow Bayes' rule and model outcomes form distributions",
  "For every belief, action and observation the successor belief is the normalised Bayes posterior and the observation probabilities are its evidence: non-negative, summing to one over observations, with the predicted state distribution conserved across observations; expected reward is linear in the belief. The states logged by a run are exactly such beliefs reachable from the start belief (each a distribution, each listed once).",
  ["inputs", "histories"], "all POMDPs x reachable beliefs x actions x observations",
  "No test looks at a belief; errors in zero-probability or near-deterministic cases do not show in the fixed models' bounds.",
  ["src/pomdpCore/Pomdp.cc", "src/pomdpCore/Pomdp.h", "src/common/sla.h", "src/bounds/BoundPairCore.cc"],
  "sparse belief update T^T b, elementwise observation weighting, normalisation; hashing of beliefs to node identities")

p("C12", "Sparse linear algebra agrees with dense reference arithmetic",
  "Each sparse vector and matrix operation the solver relies on (copies between sparse and dense, products with vectors, transposes, elementwise products, sums, norms, inner products, column extraction, masked operations, max/argmax, dominance) gives the result of the same dense computation for every shape and sparsity pattern, including empty, full and non-square operands. Entry order and zero entries never matter.",
  ["inputs"], "all shapes, sparsity patterns and values of operands",
  "test_sla.cc is not part of the test suite and prints without checking.",
  ["src/common/sla.h", "src/common/sla_mask.h", "src/common/slaMatrixUtils.h", "src/common/MatrixUtils.h"],
  "merge loops over sorted index lists; compressed-column storage")

p("C13", "Racetrack and custom models have the documented dynamics",
  "In a racetrack model the accelerations, slip and wind probabilities, wall collisions along the whole path, reset to the start distribution, unit step cost, finish-line crossing and discount are those the map file and its parameters specify; outcome probabilities sum to one and only finished states are terminal. The custom chain model with N states has the transitions and rewards its documentation gives.",
  ["inputs"], "all well-formed maps and parameters x all reachable states and actions; all chain lengths",
  "Two tests solve one map and one chain; only the root value is compared.",
  ["src/mdps/RaceTrack.cc", "src/mdps/RaceTrack.h", "src/mdps/CustomMDP.cc"],
  "outcome enumeration per state-action with ray-cast collision test")

p("C14", "Options that only affect speed or representation do not change answers",
  "Turning masking, support lists, plane caching, extra pruning, the sawtooth support list, the weak upper-bound heuristic, the model parser, the bound representation or the search strategy changes neither the value found nor its validity: two converged runs on the same model report intervals that overlap, and each result is within the regret target of the other. Valid combinations of these options never make a run fail.",
  ["configurations", "inputs"], "all valid combinations of these options x models",
  "Tests flip a few of these options on two models.",
  ["src/pomdpBounds/MaxPlanesLowerBound.cc", "src/pomdpBounds/SawtoothUpperBound.cc", "src/main/solverUtils.cc", "src/bounds/*.cc", "src/search/*.cc"],
  "optional data structures accelerate the same mathematical operators")

p("C15", "Policy evaluation reports the true expected reward of the policy",
  "The mean reward 'zmdp evaluate' (and each benchmark epoch) reports is an unbiased estimate of the policy's exact expected discounted reward, truncated at the step limit, in the simulator model (with the evaluation cache, up to the one trial per batch it draws differently), and its confidence interval contains the mean and has the width the sample spread warrants. The number of traces logged and the use of a separate planner model do not bias it, and the scores file has the same mean as the report.",
  ["inputs", "configurations"], "all models, policies, step limits, trial counts and evaluator settings (cache on/off, separate planner model)",
  "Two tests compare a mean with a stored value within a wide tolerance.",
  ["src/exec/PolicyEvaluator.cc", "src/exec/MDPExec.cc", "src/exec/BoundPairExec.cc", "src/common/MDPSim.cc", "src/mdps/CacheMDP.cc", "src/bounds/MDPCache.cc"],
  "Monte Carlo rollouts in batches over a cached MDP; bootstrap confidence interval")

p("C16", "Simulated trajectories are executions of the model",
  "Every logged simulation trace starts at the model's start state or belief, each step's outcome has positive probability under the model for the chosen action and leads to the correct successor, a trace ends exactly at a terminal state or the step limit, and over many runs outcomes occur with their model frequencies. This holds for every sequence of random numbers, including the extreme values of the generator.",
  ["inputs", "histories"], "all models and policies x all random sequences including 0 and the maximum value",
  "sim.plot is only checked for existence; extreme random draws practically never occur in a test run.",
  ["src/common/MDPSim.cc", "src/exec/PolicyEvaluator.cc", "src/common/MatrixUtils.h", "src/common/zmdpCommonDefs.h"],
  "inverse-CDF sampling of outcomes; trace logging")

p("C17", "Configuration sources layer predictably and bad settings are refused",
  "The value of each setting is the one given last on the command line, else in the -c file, else the built-in default; aliases are equivalent to their long forms; a file produced by --genConfig reproduces the defaults exactly. Unknown fields and missing values are errors with a failure status, as are malformed numbers and values outside a documented choice list for every setting the command uses, and every documented value is accepted.",
  ["inputs", "configurations"], "all settings x all three sources x orders, and all invalid names and values",
  "Tests set a handful of options on the command line, all valid.",
  ["src/common/zmdpConfig.cc", "src/main/solverUtils.cc", "src/main/zmdp.cc", "src/main/zmdp.config", "src/build/embedFiles.perl"],
  "embedded default config overlaid by file and command line; enum and typed getters validate")

p("C18", "An interrupted or timed-out solve still ends with a complete, valid result",
  "If a 'zmdp solve' run is interrupted by SIGINT or its time limit at any point after search begins, it stops at a trial boundary, exits successfully, and the policy it writes is complete, readable by 'zmdp evaluate' and satisfies the same guarantees as a converged one relative to the last bounds it printed.",
  ["crash_points", "schedules", "inputs"], "all interruption points during the search x models x strategies",
  "No test interrupts a run.",
  ["src/main/zmdp.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc"],
  "signal handler sets a flag tested after each trial; policy pruned and written on every exit path")

p("C19", "Replaying a logged backup sequence reproduces the logged run",
  "Running with searchStrategy 'script' on the logs of an earlier benchmark run performs exactly the logged backups on the logged states in order (until the regret target is reached) and, with the same representation settings and precision, ends with the same bounds at every state logged by a frtdp, hsvi or rtdp run; with other settings and strategies the bounds are still valid. The log files written by a run can always be read back.",
  ["histories", "inputs", "configurations"], "all models x logging strategies x lengths of run x settings of the replay",
  "No test uses logging or replay.",
  ["src/search/StateLog.cc", "src/search/ScriptedUpdater.cc", "src/main/TestDriver.cc", "src/bounds/BoundPair.cc"],
  "state index + backup id log; scripted updater feeds states back to the bound pair")

p("C20", "A crash while benchmarking never leaves the user without a whole policy",
  "If a benchmark run that rewrites its policy file every epoch is killed at any moment after the first policy was completed, a complete, readable policy remains at the policy file name or its backup name. A run that completes leaves the newest policy at the requested name and nothing else, whatever characters the name contains.",
  ["crash_points", "inputs"], "every kill point during a policy rewrite x policy file names",
  "No test kills a run or writes a policy twice.",
  ["src/main/TestDriver.cc", "src/bounds/BoundPair.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc"],
  "existing policy is moved to a backup name before rewriting, and the backup is removed afterwards")

p("C21", "Finite-horizon undiscounted POMDPs are solved correctly with maxHorizon",
  "For a POMDP with discount 1 that is guaranteed to end within maxHorizon steps, a run given that maxHorizon reports bounds that bracket the exact finite-horizon optimum throughout, converges to it, and writes a policy that earns its lower bound. Giving a valid maxHorizon to a discounted model of that kind also keeps the bounds valid.",
  ["inputs", "configurations"], "all guaranteed-terminating POMDPs, discount 1 or less, any valid maxHorizon, positive and negative rewards",
  "One fixed model is solved with maxHorizon.",
  ["src/pomdpBounds/BlindLBInitializer.cc", "src/pomdpBounds/FastInfUBInitializer.cc", "src/pomdpBounds/FullObsUBInitializer.cc", "src/bounds/BoundPair.cc"],
  "initial bounds computed by horizon-limited recursion instead of a discounted fixed point")

p("C22", "Generated LifeSurvey POMDPs implement the survey domain's rules",
  "gen_LifeSurvey turns a survey map (with an odd number of rows) into a well-formed POMDP in which positions, legal moves, sampling and lookahead costs, one-time region rewards, life priors (or a known target list), sensor likelihoods, exits and the start distribution are those the map file specifies. Both output modes denote the same model, both parsers accept the numeric one, and the other LifeSurvey tools agree with the map. The path-following policy follows a path with the largest expected number of regions with life and only makes legal moves.",
  ["inputs", "programs"], "all valid survey maps and parameters, with and without target lists, in both output modes",
  "No test runs the generator or the LifeSurvey policies.",
  ["src/pomdpModels/lifeSurvey/LSModelFile.cc", "src/pomdpModels/lifeSurvey/LifeSurvey.cc", "src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc", "src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc"],
  "breadth-first enumeration of reachable survey states with outcome and observation tables")

p("C23", "A tabulated copy of a model behaves exactly like the model",
  "The table a model is copied into for evaluation (filled on demand as states are reached) gives the same outcome probabilities, rewards, terminal flags and successors as the original for every reachable state and action, up to the relabelling of states and entries below 1e-10. States that differ noticeably (by more than 2e-9 in a component) are never merged, however large or small their components are, and a state reached twice keeps one label.",
  ["inputs"], "all models with finitely many reachable states or beliefs (POMDP beliefs, MDP, racetrack, custom), any state component values",
  "No test compares the table with the model.",
  ["src/bounds/MDPCache.cc", "src/mdps/CacheMDP.cc", "src/common/MDPModel.h", "src/common/sla.h", "src/bounds/BoundPairCore.cc"],
  "breadth-first expansion keyed by a printable hash of the state vector")

p("C24", "Programs running policies through the library get exact beliefs and actions",
  "A program that executes policies through the library (BoundPairExec, MDPExec) rather than through zmdp gets the exact Bayes posterior after every action and observation it reports, from the start belief whenever a run is restarted, and at every belief the action the policy file denotes there. The terminal flag is set exactly at terminal states, and only observations the model allows are accepted. Several executives in one program, also for different models and policies, never influence each other.",
  ["inputs", "histories"], "all models, policy files of both formats, interleavings of executives, and sequences of calls",
  "The tests only run zmdp, which keeps one executive per process and feeds it from its own simulator.",
  ["src/exec/BoundPairExec.cc", "src/exec/MDPExec.cc", "src/exec/PomdpExec.cc", "src/pomdpCore/Pomdp.cc", "src/pomdpBounds/MaxPlanesLowerBound.cc"],
  "the executive keeps a current state, advances it by the model's getNextState and asks the bounds for an action")

p("C25", "A run that reports success has written every requested output completely",
  "When a policy, log, trace, score, configuration or model file a command was asked for cannot be created or written completely at any moment of the run, the command ends with an error naming an output and a failure status. A success status means every requested output holds what an unhindered run would have written, and no other file is created, changed or removed. A policy rewrite that fails leaves the previous whole policy at the policy's name or its backup's.",
  ["fault_sequences", "inputs", "configurations"], "all commands, output options and models, and every write or open of an output that can fail (once, for a while, or from some point on)",
  "No test runs with a full disk or an output that cannot be written, and which write fails is a matter of timing and size.",
  ["src/common/zmdpCommonDefs.h", "src/pomdpBounds/MaxPlanesLowerBound.cc", "src/search/StateLog.cc", "src/main/TestDriver.cc", "src/exec/PolicyEvaluator.cc", "src/common/embedFiles.h", "src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc", "src/pomdpModels/lifeSurvey/dumpMap.cc"],
  "every output stream is checked when opened and when closed; the policy is rewritten behind a backup")

p("C26", "Runs are reproducible, and watching a run does not change it",
  "A run's bounds, logs, scores and policy are a function of its input files, options and random draws: memory contents and addresses, environment variables, working directory and the speed of the clock never change them, as long as no time limit ends the run. With frtdp and hsvi the random draws do not matter either, nor do logging, evaluation epochs and policies written on the way, and solve ends with the bounds a benchmark run logs after the same number of trials. The number of traces logged does not change an evaluation.",
  ["inputs", "configurations", "schedules"], "all models, strategies, representations and logging options, memory layouts and clock speeds",
  "A test sees one memory layout and clock per run and never compares two runs.",
  ["src/search/RTDPCore.cc", "src/bounds/BoundPair.cc", "src/bounds/BoundPairCore.cc", "src/search/StateLog.cc", "src/main/TestDriver.cc", "src/main/zmdp.cc", "src/exec/PolicyEvaluator.cc", "src/common/MatrixUtils.h"],
  "search decisions depend on bounds and draws only; logs and simulations read the bounds without updating them")

p("C27", "The value of a model does not depend on how the model is presented",
  "Reordering states, actions and observations, duplicating an action, splitting a state or an observation into indistinguishable ones, adding unreachable states, scaling rewards or (without terminal states) shifting them changes optimal values only as the definition says. So at every corresponding belief, after the due conversion, no lower bound or policy plane of a frtdp or HSVI run on any presentation, with any representation, exceeds the upper bound of another run, and none contradicts the optimal value, on models with a hundred states as on small ones.",
  ["inputs", "configurations"], "rover, maze and sparse random POMDPs of 10-130 states and eight presentations of each, all point-based configurations",
  "Values of larger models are unknown to a test, and a pair of presentations only shows the slips that depend on position, size or support.",
  ["src/bounds", "src/pomdpBounds", "src/search", "src/parsers", "src/pomdpCore"],
  "the engine treats indices as names and rewards linearly")

p("C28", "Benchmark trials follow one-step lookahead on the bound they are told to use",
  "In the evaluation of 'zmdp benchmark', every action taken in every trial maximises, over all actions, immediate reward plus discounted expected bound of the successors (ties aside), with the bound named by runTimeActionSelection: lower if it is maintained and '-' or 'lower' is given, upper otherwise. The bounds are the current ones: the last evaluation is of the bounds the run ended with, however it ended, and its lookahead agrees with the logged action values and with the policy file the run leaves, which is worth the logged lower bound at every logged belief.",
  ["inputs", "configurations", "histories"], "all model types, strategies, representations, action selection settings, evaluation modes and ways to end x every decision in every trial",
  "Tests read mean rewards, with wide margins; a slightly wrong choice of action, the wrong bound or an outdated one only changes them a little.",
  ["src/bounds/BoundPair.cc", "src/exec/BoundPairExec.cc", "src/exec/PolicyEvaluator.cc", "src/main/TestDriver.cc", "src/main/solverUtils.cc"],
  "BoundPair::chooseAction; the cached evaluator remembers one action per state")

p("C29", "The RockExplore program implements its domain and the policies it names",
  "zmdpRockExplore builds with its makefile. The model it writes is exactly the RockExplore domain (rocks, moves, sampling, checks, exit, rewards, prior, discount), complete or reported as failed. In its simulator every state, reward, observation and displayed rock probability follows the domain's rules and Bayes' rule with the documented probabilities, totals are the discounted sums, and each policy type takes the action its definition names (QMDP, voting, most likely state, dual-mode, zmdp's policy file; ties to the first action); the displayed MDP policy is optimal; evaluations report mean and 95% interval of 100 independent runs. Any input is answered, and the end of input ends the program.",
  ["inputs", "histories", "fault_sequences"], "all menu sessions, action sequences, random draws, policy files and write failures",
  "The program is built by none of the tests and its results are random; its answers depend on the whole history of a session.",
  ["src/pomdpModels/RockExplore/RockExplore.cc", "src/pomdpModels/RockExplore/REBasicPomdp.cc", "src/pomdpModels/RockExplore/RockExplorePolicy.cc", "src/pomdpModels/RockExplore/zmdpRockExplore.cc", "src/exec/BoundPairExec.cc"],
  "getActionResult and getObsProb define the domain; simulator, belief update, value iteration and policies use nothing else")

out =os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
