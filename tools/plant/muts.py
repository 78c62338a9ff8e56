M=[]
def m(id,prop,f,old,new,needs,breaks,checks=None,count=1):
    M.append(dict(id=id,prop=prop,f=f,old=old,new=new,needs=needs,breaks=breaks,checks=checks or [prop],count=count))

m('sawtooth-skips-last-entry','C01','src/pomdpBounds/SawtoothUpperBound.cc',
 "  if (bdone) {\n    for (; ci != cend; ci++) {", "  if (bdone && ci != cend) {\n    for (++ci; ci != cend; ci++) {",
 "a sawtooth point c whose support exceeds the support of the queried belief by exactly one state, and that state is the last one of c",
 "the point is used where its ratio should be 0, so the upper bound drops below the optimal value",['C01','C02','C14'])
m('point-ub-first-value','C02','src/bounds/PointUpperBound.cc',
 "  double maxUBVal = cachedUpperBound(maxUBAction);\n\n#if 1", "  double maxUBVal = val;\n\n#if 1",
 "a point upper bound without a point lower bound, and a backup in which the greedy action changes to an action already updated in the same backup",
 "the value of the last updated action is stored instead of the maximum: upper bound below the optimum",['C02','C01'])
m('sawtooth-usecache-val','C01','src/pomdpBounds/SawtoothUpperBound.cc',
 "  double maxVal = cachedUpperBound(maxUBAction);\n", "  double maxVal = val;\n",
 "a sawtooth backup in which several actions are updated and the first one updated stays best",
 "the stored upper bound is that of the last action updated, not the best one",['C01','C02'])
m('prune-mask-ignored','C05','src/pomdpBounds/MaxPlanesLowerBound.cc',
 "      } else if (dominates(member, candidate, useMaxPlanesMasking)) {",
 "      } else if (dominates(member, candidate, false)) {",
 "masking on, two planes with different masks, the member larger where both have entries but with a smaller mask, at least one prune",
 "a plane is pruned by one that does not apply everywhere: the policy loses value or coverage at some beliefs",['C05','C14','C18','C06'])
m('support-list-from-alpha','C14','src/pomdpBounds/MaxPlanesLowerBound.cc',
 "FOR_EACH(ai, av->mask.data) { supportList[ai->index].push_back(av); }",
 "FOR_EACH(ai, av->alpha.data) { supportList[ai->index].push_back(av); }",
 "support list on and a plane with a zero entry inside its mask",
 "the plane is not found for beliefs whose first state has value zero",['C14','C10','C01','C05'])
m('lrtdp-label-failing','C03','src/search/LRTDP.cc',
 "    if (residual(n) > targetPrecision) {\n      rv = false;\n      continue;\n    }",
 "    if (residual(n) > targetPrecision) {\n      rv = (&n != &cn);\n      continue;\n    }",
 "lrtdp on a model where a successor of the checked state has a large residual while the state itself has none, or a later one resets the flag",
 "states are labelled solved although successors have not converged: the run ends too early",['C03','C01'])
m('hdp-cycle-low','C03','src/search/HDP.cc',
 "        getLow(cn) = std::min(getLow(cn), getLow(sn));",
 "        getLow(cn) = std::min(getLow(cn), getIdx(sn));",
 "hdp on a model whose greedy graph has a cycle through at least three states",
 "members of a strongly connected component are labelled before the component is finished, so the run ends before convergence",['C03'])
m('hdp-flag-lost','C03','src/search/HDP.cc',
 "        if (trialRecurse(sn, depth + 1)) {\n          flag = true;\n        }",
 "        flag = trialRecurse(sn, depth + 1);",
 "hdp with a stochastic action where an earlier outcome needs more updates and a later one does not",
 "a state is labelled solved although a successor has a residual",['C03'])
m('bounds-plot-rate','C04','src/search/RTDPCore.cc',
 "    if (done || (0 == lastPrintTime) ||", "    if ((0 == lastPrintTime) ||",
 "a benchmark whose last trial ends within 0.01% of the previous line's time",
 "the last bounds.plot line can miss the final state of the run",['C04','C03'])
m('expanded-counter','C04','src/bounds/BoundPair.cc',
 "    if (oprob > OBS_IS_ZERO_EPS) {\n        MDPEdge *e = new MDPEdge();" if False else "  numStatesExpanded++;\n}", "  if (cn.isTerminal == false) numStatesExpanded++;\n}",
 "a backup of a terminal state","terminal states are not counted as expanded",['C04'])
m('emult-early-out','C12','src/common/sla.h',
 "      if (yi == yend) return sum;\n      if (yi->index >= xi->index) {",
 "      if (yi == yend) return sum;\n      if (yi + 1 == yend && yi->index < xi->index) return sum;\n      if (yi->index >= xi->index) {",
 "none (equivalent)","equivalent mutant",['C12'])
m('sparse-accum-size','C12','src/common/sla.h',
 "  if (x.filled() * A.filled() < 0.1 * A.size1() * A.size2()) {", "  if (x.filled() * A.filled() < 0.1 * A.size1() * A.size2() && A.size1() <= A.size2()) {",
 "none (equivalent)","equivalent mutant",['C12'])
m('kmatrix-keep-first','C12','src/common/sla.h',
 "    if (!d.empty() && rc_equal(d.back(), data[i])) {\n      d.back() = data[i];",
 "    if (!d.empty() && rc_equal(d.back(), data[i])) {\n      d.back().value = std::max(d.back().value, data[i].value);",
 "a matrix with several entries for one coordinate, the last one smaller","the largest instead of the last entry is kept",['C12','C08'])
m('sub-tail-sign','C12','src/common/sla.h',
 None,None,"","",['C12'])
m('bresenham-tie','C13','src/mdps/RaceTrack.cc',
 "      if (eps > -adx) RT_PLOT(x, y);", "      if (eps >= -adx) RT_PLOT(x, y);",
 "a racetrack move that passes exactly through a cell corner next to a wall","the move hits a cell it only touches at a corner",['C13'])
m('bresenham-tie2','C13','src/mdps/RaceTrack.cc',
 "    if (eps < adx) RT_PLOT(x, y);", "    if (eps <= adx) RT_PLOT(x, y);",
 "a racetrack move that leaves a column exactly through a cell corner (even length)","the move hits a cell it only touches at a corner",['C13'])
m('wind-dir-swap','C13','src/mdps/RaceTrack.cc',
 "static int day[] = {0, 0, 0, -1, 0, 1, -1, 1, -1, 0, 1};","static int day[] = {0, 0, 0, -1, 0, 1, -1, 1, -1, 1, 1};",
 "useErrorIsWind and a state where (1,0) and (1,1) wind differ","one wind direction is drawn twice and another never",['C13'])
m('slip-outcome-crash-lost','C13','src/mdps/RaceTrack.cc',
 "      RT_CHECK_OUTCOME(RT_NORMAL, ax, ay);\n      RT_CHECK_OUTCOME(RT_SLIP, 0, 0);",
 "      RT_CHECK_OUTCOME(RT_NORMAL, ax, ay);\n      if (RT_NORMAL != lineType || oldVX || oldVY) {\n        RT_CHECK_OUTCOME(RT_SLIP, 0, 0);\n      }",
 "none (equivalent unless standing on a finish cell)","slip while standing on a finish cell at rest is not recognised as finishing",['C13'])
m('ci-quantile','C15','src/common/zmdpCommonTypes.cc',None,None,"","",['C15'])
m('cache-clear-userdouble','C15','src/exec/PolicyEvaluator.cc',
 "      if (probSum == 1.0 && minProb * cntSum >= 10) {" if False else "              if (probSum == 1.0 && minProb * cntSum >= 10) {",
 "              if (probSum == 1.0) {",
 "my line","",['C15'])
m('discount-reweight','C15','src/exec/PolicyEvaluator.cc',
 "                    reweight * modelCache->getDiscount() * rewardSoFar;",
 "                    (j ? reweight : 1.0) * modelCache->getDiscount() * rewardSoFar;",
 "the evaluation cache, many trials per batch and a stochastic first step","the first step's reweighting is dropped: only variance changes",['C15'])
m('batch-counts-not-cleared','C15','src/exec/PolicyEvaluator.cc',
 "          if (NULL != e) {\n            e->userInt = -1;\n          }", "          if (NULL != e && !cn->isTerminal && si > 0) {\n            e->userInt = -1;\n          }",
 "the evaluation cache and a stochastic first step","counts of the start state accumulate over batches, so reweighting uses other batches' counts",['C15'])
m('trace-count','C16','src/exec/PolicyEvaluator.cc',
 "    if (i >= numTracesToLog) {\n      sim->simOutFile = NULL;  // stop logging\n    }\n\n    sim->restart();",
 "    sim->restart();\n    if (i >= numTracesToLog) {\n      sim->simOutFile = NULL;  // stop logging\n    }",
 "evaluation without the cache and fewer traces logged than trials","an extra empty trace header is written",['C16','C15'])
m('sim-terminated-before','C16','src/common/MDPSim.cc',
 "  // check for termination\n  if (model->getIsTerminalState(state)) {", "  // check for termination\n  if (lastOutcomeIndex >= 0 && imm_reward != 0.0 && model->getIsTerminalState(state)) {",
 "a terminal state entered by a step whose reward is zero","the trace goes on past the terminal state",['C16','C15'])
m('alias-passes','C17','src/common/zmdpConfig.cc',"  const int numPasses = 3;","  const int numPasses = 1;","nested alias","aliases that expand to aliases are not fully expanded",['C17'])
m('ddash-options','C17','src/common/zmdpConfig.cc',"        pastOptions = true;\n","        pastOptions = !pastOptions;\n","two -- markers","options after a second -- are processed",['C17'])
m('int-trailing','C17','src/common/zmdpConfig.cc',None,None,"","",['C17'])
m('config-comment','C17','src/common/zmdpConfig.cc',"    if (0 == strncmp(buf, \"alias\", 5)) {","    if (0 == strncmp(buf, \"a\", 1)) {","config with a field starting with a","",['C17'])
m('policy-before-solve-sigint','C18','src/main/zmdp.cc',
 "    // check timeout\n    double elapsed = run.elapsedTime();\n    if (elapsed >= p.terminateWallclockSeconds) {",
 "    // check timeout\n    double elapsed = run.elapsedTime();\n    if (numSolverCalls > 1 && elapsed >= p.terminateWallclockSeconds) {",
 "timeout during first call","the run makes a second trial after its time is up",['C18'])
m('statelog-precision','C19','src/search/StateLog.cc',
 "      out << CV_INDEX(v) << \" \" << setprecision(20) << CV_VAL(v) << endl;",
 "      out << CV_INDEX(v) << \" \" << setprecision(12) << CV_VAL(v) << endl;",
 "a belief with components that are not short decimals","the replayed belief differs in the 13th digit and can be another state",['C19','C02'])
m('statelog-last','C19','src/search/StateLog.cc',
 "    if (string::npos != s.find(\"state\")) {\n      if (accum.filled() > 0) {\n        accum.canonicalize();",
 "    if (string::npos != s.find(\"state\")) {\n      if (accum.filled() > 1 || entries.empty()) {\n        accum.canonicalize();",
 "an index with a single-component state that is not the first","states with a single entry are merged into the next one",['C19'])
m('script-trial-end','C19','src/search/ScriptedUpdater.cc',
 "    int id = backupsLog->getLogEntry(currentLogEntry++);\n    const state_vector &s","    int id = backupsLog->getLogEntry(currentLogEntry);\n    if (++currentLogEntry == static_cast<int>(backupsLog->size())) break;\n    const state_vector &s",
 "replay of a log to its end","the last logged backup is not performed",['C19'])
m('backup-unlinked-early','C20','src/main/TestDriver.cc',
 "        so.bounds->writePolicy(outPolicyFileName,\n                               /* canModifyBounds = */ false);\n\n        // delete the backup\n        if (0 != unlink(backupFileName.c_str()) && ENOENT != errno) {\n          fprintf(stderr, \"failed to delete policy backup\\n\");\n        }",
 "        // delete the backup\n        if (0 != unlink(backupFileName.c_str()) && ENOENT != errno) {\n          fprintf(stderr, \"failed to delete policy backup\\n\");\n        }\n\n        so.bounds->writePolicy(outPolicyFileName,\n                               /* canModifyBounds = */ false);",
 "a kill while the policy of a later epoch is being written","no whole policy is left",['C20'])
m('no-backup-finished','C20','src/main/TestDriver.cc',
 "        if (0 != rename(outPolicyFileName, backupFileName.c_str()) &&\n            ENOENT != errno) {",
 "        if (!solverFinished &&\n            0 != rename(outPolicyFileName, backupFileName.c_str()) &&\n            ENOENT != errno) {",
 "a kill during the policy write of the last epoch","the policy is overwritten in place without a backup in the last epoch",['C20'])
m('term-ub-strict','C03','src/main/TestDriver.cc',
 "      if (root->ubVal <= terminateUpperBoundValue) {","      if (root->ubVal < terminateUpperBoundValue) {",
 "terminateUpperBoundValue equal to a value the upper bound takes exactly and keeps","the run does not stop when the upper bound reaches the value",['C03'])
m('term-lb-unmaintained','C03','src/main/TestDriver.cc',
 "    if (so.bounds->maintainLowerBound && terminateLowerBoundValue != -999) {","    if (terminateLowerBoundValue != -999) {",
 "terminateLowerBoundValue below -1 with a strategy that maintains no lower bound","the run stops at once because the placeholder -1 is compared",['C03'])
m('blind-horizon-min','C21','src/pomdpBounds/BlindLBInitializer.cc',
 "        std::min(longTermFactor, static_cast<double>(pomdp->maxHorizon));","        std::min(longTermFactor, static_cast<double>(pomdp->maxHorizon - 1));",
 "a model that uses all maxHorizon steps with the worst reward","the initial lower bound covers one step too few",['C21'])
m('se-overlap','C22','src/pomdpModels/lifeSurvey/LifeSurvey.cc',
 "          np[LS_NE] = s.lifeInNeighborCell[LS_E] ? 1.0 : 0.0;","          np[LS_NE] = s.lifeInNeighborCell[LS_SE] ? 1.0 : 0.0;",
 "a south-east move with different E and SE life","",['C22'])
m('reward-once','C22','src/pomdpModels/lifeSurvey/LifeSurvey.cc',
 "          std::max(newRewardLevel, oldRewardLevel);","          newRewardLevel;",
 "a region entered with sampled life and re-entered without","the reward of a region can be earned twice",['C22'])
m('exit-reward','C22','src/pomdpModels/lifeSurvey/LifeSurvey.cc',
 "        reward = actionReward - actionCost;\n        return;\n      }\n\n      /* canonicalize","        reward = getReward(0, newRewardLevel) - actionCost;\n        return;\n      }\n\n      /* canonicalize",
 "an exit cell in a region already rewarded","the exit move earns the region's reward again",['C22'])
m('reach-order','C22','src/pomdpModels/lifeSurvey/LifeSurvey.cc',
 "  } while (numChanges > 0);","  } while (numChanges > result.width * result.height);",
 "a region reachable only by a path that goes against the sweep order","a region is taken for unreachable although it can be reached by NE moves",['C22'])
m('obs-order','C22','src/pomdpModels/lifeSurvey/LifeSurvey.cc',
 "    lifeInNeighborConfidence[1] = oi % LS_BASE_NUM_OBSERVATIONS;\n    oi /= LS_BASE_NUM_OBSERVATIONS;\n    lifeInNeighborConfidence[0] = oi;",
 "    lifeInNeighborConfidence[0] = oi % LS_BASE_NUM_OBSERVATIONS;\n    oi /= LS_BASE_NUM_OBSERVATIONS;\n    lifeInNeighborConfidence[1] = oi;",
 "full-identifier mode or the path-following policy with different readings","decoding swaps two neighbours",['C22'])
m('path-dominates','C22','src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc',
 "  if (val1.unreachableRegionValue < val2.unreachableRegionValue) {\n    return false;\n  }","  if (val1.unreachableRegionValue + 0.25 < val2.unreachableRegionValue) {\n    return false;\n  }",
 "a map with two paths through one cell whose values differ by less than 0.25","a better path is pruned",['C22'])
m('cachemdp-eps','C23','src/mdps/CacheMDP.cc',
 "      if (Qa.opv(o) > OBS_IS_ZERO_EPS) {\n        CMDPEdge","      if (Qa.opv(o) > 1e-4) {\n        CMDPEdge",
 "an outcome with probability below 1e-4","the table lacks the successor of a rare outcome",['C23','C16','C10'])
m('cachemdp-terminal','C23','src/mdps/CacheMDP.cc',
 "    cn.isTerminal = problem->getIsTerminalState(s);","    cn.isTerminal = (s.filled() == 1) && problem->getIsTerminalState(s);",
 "a terminal belief over several terminal states","",['C23','C16'])
m('belief-terminal','C11','src/pomdpCore/Pomdp.cc',
 "  return (nonTerminalSum < 1e-10);","  return (nonTerminalSum < 1e-6);","a belief with non-terminal mass between 1e-10 and 1e-6","",['C11','C16','C02','C07'])
m('policy-last-plane','C06','src/pomdpBounds/MaxPlanesLowerBound.cc',
 "  if (2 == parseState) {\n    mask_set_to_one(plane.mask, plane.alpha);\n    addLBPlane(new LBPlane(plane));\n  }" ,
 "  if (2 == parseState && (planes.empty() || plane.action != planes.back()->action)) {\n    mask_set_to_one(plane.mask, plane.alpha);\n    addLBPlane(new LBPlane(plane));\n  }",
 "a policy whose last two planes have the same action","the last plane is lost when reading",['C06','C05'])
m('alpha-exp-round','C06','src/pomdpBounds/MaxPlanesLowerBound.cc',None,None,"","",['C06'])
m('chooseaction-tie-eps','C06','src/bounds/BoundPair.cc',
 "        if (opv(o) > OBS_IS_ZERO_EPS) {\n          problem->getNextState(sp, s, a, o);\n          lbVal +=","        if (opv(o) > 1e-3) {\n          problem->getNextState(sp, s, a, o);\n          lbVal +=",
 "an observation with probability below 1e-3 and a large value","rare observations are ignored when choosing actions",['C06','C15'])
m('imm-vector-mdp','C07','src/parsers/imm-reward.c',
 "          dtAdd(node->action, node->cur_state, i, WILDCARD_SPEC,\n                node->rep.vector[i]);","          dtAdd(node->action, node->cur_state, i, WILDCARD_SPEC,\n                node->rep.vector[i]);\n          if (node->cur_state == WILDCARD_SPEC && i + 1 == gNumStates && gNumStates > 2) dtAdd(node->action, WILDCARD_SPEC, i, WILDCARD_SPEC, node->rep.vector[i] + 1e-3);",
 "MDP reward vector with wildcard state","",['C07'])
m('dt-default-copy','C07','src/parsers/decision-tree.c',
 "      if (NULL != node->data.subTree.entries[i]) {\n        node->data.subTree.entries[i] =\n            dtAddInternal(","      if (NULL != node->data.subTree.entries[i] && DT_TABLE == node->data.subTree.entries[i]->type) {\n        node->data.subTree.entries[i] =\n            dtAddInternal(",
 "a wildcard reward line after a line for a specific action whose remaining fields were all wildcards","a later wildcard line does not override an earlier line",['C07'])
m('fast-neg-tol','C08','src/parsers/FastParser.cc',
 "      if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing","      if (sum(checkTmp) - 1.0 > POMDP_READ_ERROR_EPS) {\n        fprintf(stderr,\n                \"ERROR: %s: outgoing",
 "fast parser on a file whose transition row sums to less than one","",['C08','C09'])
m('relax-second-best','C01','src/bounds/RelaxUBInitializer.cc',
 "    cn.ubVal = std::max(cn.ubVal, Qa.ubVal);\n  }","    cn.ubVal = std::max(cn.ubVal, Qa.ubVal);\n    if (cn.ubVal == cn.lbVal) break;\n  }",
 "","",['C01','C02','C13'])
m('relax-max-outcome','C01','src/bounds/RelaxUBInitializer.cc',
 "        Qa.ubVal = std::max(Qa.ubVal, sn.ubVal);","        Qa.ubVal = (o > 0 && Qa.ubVal > -99e+19) ? e->obsProb * sn.ubVal + (1 - e->obsProb) * Qa.ubVal : sn.ubVal;",
 "racetrack with three kinds of outcomes","expectation computed wrongly over more than two outcomes: upper bound too low",['C01','C02'])
m('horizon-ub','C21','src/pomdpBounds/FullObsUBInitializer.cc',None,None,"","",['C21'])
m('fib-init-max','C01','src/pomdpBounds/FastInfUBInitializer.cc',
 "    if (pomdp->isTerminalState[i]) {\n      dalpha(i) = 0.0;\n    }","    if (pomdp->isTerminalState[i] || dalpha(i) > 0.0) {\n      dalpha(i) = pomdp->isTerminalState[i] ? 0.0 : dalpha(i) - MDP_RESIDUAL * 1e4;\n    }",
 "positive values","",['C01'])
m('node-cache-plane-age','C10','src/pomdpBounds/MaxPlanesLowerBound.cc',
 "      std::list<LBPlane **> &backPointers = oldPlane->backPointers;\n      typeof(backPointers.begin()) eraseList = std::remove(\n          backPointers.begin(), backPointers.end(), &bdata->bestPlane);\n      backPointers.erase(eraseList);",
 "      std::list<LBPlane **> &backPointers = oldPlane->backPointers;\n      backPointers.pop_back();",
 "plane cache on, a plane that is best for several nodes and a later prune","a node keeps a pointer to a pruned plane",['C10','C14'])
m('sawtooth-support-dangling','C10','src/pomdpBounds/SawtoothUpperBound.cc',
 "    FOR_EACH(bi, victim->b.data) {\n      BVList &bvl = supportList[bi->index];","    FOR_EACH(bi, victim->b.data) {\n      if (bi->value < CORNER_EPS) continue;\n      BVList &bvl = supportList[bi->index];",
 "sawtooth support list, a pruned point with a component below CORNER_EPS","the support list keeps a deleted point",['C10','C14'])
M=[x for x in M if x['old'] is not None]
