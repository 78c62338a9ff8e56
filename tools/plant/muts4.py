M=[]
def m(id,prop,f,old,new,needs,breaks,checks=None):
    M.append(dict(id=id,prop=prop,f='src/'+f,old=old,new=new,needs=needs,breaks=breaks,checks=checks or [prop]))
m('gd-lb-skip-terminal','C01','mdps/GenericDiscreteMDP.cc',
 "        minStateReward = std::min(minStateReward, x->R(s, a));",
 "        if (!x->isTerminalState[s]) {\n          minStateReward = std::min(minStateReward, x->R(s, a));\n        }",
 "an MDP with positive rewards everywhere outside its terminal states","the initial lower bound ignores that a terminal state ends the rewards",['C01'])
m('gd-ub-skip-terminal','C01','mdps/GenericDiscreteMDP.cc',
 "      FOR(s, x->numStates) { maxReward = std::max(maxReward, x->R(s, a)); }",
 "      FOR(s, x->numStates) {\n        if (x->isTerminalState[s]) continue;\n        maxReward = std::max(maxReward, x->R(s, a));\n      }",
 "an MDP whose rewards are all negative outside its terminal states","initial upper bound below the optimal value",['C01'])
m('lookahead-eps','C06','bounds/BoundPair.cc',
 "        if (opv(o) > OBS_IS_ZERO_EPS) {\n          problem->getNextState(sp, s, a, o);\n          lbVal +=",
 "        if (opv(o) > ZMDP_BOUNDS_PRUNE_EPS * 10) {\n          problem->getNextState(sp, s, a, o);\n          lbVal +=",
 "an observation of tiny probability with a huge value","lookahead ignores rare observations",['C06','C24','C28'])
m('write-alpha-nonzero','C06','pomdpBounds/MaxPlanesLowerBound.cc',
 "      int i = CV_INDEX(mask);\n      out",
 "      int i = CV_INDEX(mask);\n      if (0.0 == alpha(i) && !firstEntry) continue;\n      out",
 "a plane with an entry that is exactly zero","the written plane no longer applies to beliefs it was made for",['C05','C18'])
m('delete-skip-last','C10','pomdpBounds/MaxPlanesLowerBound.cc',
 "    FOR_EACH(ai, victim->mask.data) {\n      PlaneSet &pi = supportList[ai->index];",
 "    FOR_EACH(ai, victim->alpha.data) {\n      PlaneSet &pi = supportList[ai->index];",
 "support lists, pruning of a plane with a zero entry","pruned plane stays in a support list: use after free",['C10','C14'])
m('backptr-forward','C10','pomdpBounds/MaxPlanesLowerBound.cc',
 "      *bp = dominator;\n      dominator->backPointers.push_back(bp);",
 "      *bp = dominator;\n      if (!useMaxPlanesExtraPruning) dominator->backPointers.push_back(bp);",
 "cache and extra pruning, plane dominated twice","dangling cached planes",['C10','C14'])
m('maxplanes-prunecmp','C05','pomdpBounds/MaxPlanesLowerBound.cc',
 "    return mask_dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS, a->mask,\n                          b->mask);",
 "    return mask_dominates(a->alpha, b->alpha, ZMDP_BOUNDS_PRUNE_EPS, b->mask,\n                          a->mask);",
 "planes with nested masks","planes pruned by planes that apply to fewer beliefs",['C05','C14'])
m('cassandra-last-value','C06','pomdpBounds/MaxPlanesLowerBound.cc',
 "    for (int i = 0; i < pomdp->numStates; i++) {\n      inFile >> val;\n      plane.alpha.push_back(i, val);",
 "    for (int i = 0; i < pomdp->numStates; i++) {\n      inFile >> val;\n      if (pomdp->isTerminalState[i]) continue;\n      plane.alpha.push_back(i, val);",
 "an alpha vector file with a nonzero value at a terminal state","alpha entries at terminal states lost",['C06'])
m('dt-default-first','C07','parsers/decision-tree.c',
 "    node->data.subTree.defaultEntry =\n        dtAddInternal(node->data.subTree.defaultEntry, vec, index + 1, val);\n    for (i = 0; i < gTableSizes[index]; i++) {",
 "    node->data.subTree.defaultEntry =\n        dtAddInternal(node->data.subTree.defaultEntry, vec, index + 1, val);\n    for (i = 0; i < gTableSizes[index] - (index == 2); i++) {",
 "a wildcard end state over an earlier entry for the last state","the last state keeps the older reward",['C07'])
m('sparse-zero-accum','C07','parsers/sparse-matrix.c',
 "    if (cur_node->column == col) {\n      trail_node->next = cur_node->next;",
 "    if (cur_node->column == col && cur_node->next != NULL) {\n      trail_node->next = cur_node->next;",
 "a later statement setting the last nonzero column of a row to zero","overridden value stays",['C07'])
m('computerewards-zero','C07','parsers/mdp.c',
 "      addEntryToIMatrix(IQ, a, i, sum);",
 "      if (P[a]->row_length[i] == 1 && P[a]->col[P[a]->row_start[i]] == i && gProblemType == MDP_problem_type && a > 0)\n        sum = getImmediateReward(a, i, i, 0);\n      addEntryToIMatrix(IQ, a, i, sum);",
 "none","equivalent control",['C07'])
m('cassandra-cost-mdp','C07','parsers/CassandraParser.cc',
 "  return (fabs(sum - 1.0) > SPARSE_EPS) ? (1.0 / sum) : 1.0;",
 "  return (sum - 1.0 > SPARSE_EPS) ? (1.0 / sum) : 1.0;",
 "distribution rounded below one","not normalised",['C07','C11'])
m('gd-maxhorizon','C21','mdps/GenericDiscreteMDP.cc',
 "    longTermFactor = std::min(longTermFactor, static_cast<double>(maxHorizon));",
 "    longTermFactor = std::min(longTermFactor, static_cast<double>(maxHorizon - 1));",
 "undiscounted mdp with maxHorizon","bounds of an MDP too tight",['C21','C01'])
m('eval-nobs','C09','main/zmdp.cc',
 "      if (!((plannerPomdp->getNumActions() == simPomdp->getNumActions()) &&\n            (plannerPomdp->getNumObservations() ==\n             simPomdp->getNumObservations()))) {",
 "      if (!((plannerPomdp->getNumActions() <= simPomdp->getNumActions()) &&\n            (plannerPomdp->getNumObservations() <=\n             simPomdp->getNumObservations()))) {",
 "a simulator model with more observations than the planner model","out of bounds observation",['C09'])
m('eval-identical','C15','main/zmdp.cc',
 "  if (mdpExec != NULL && plannerModelFileName == simModelFileName) {",
 "  if (mdpExec != NULL && 0 == strcmp(strrchr(plannerModelFileName, '/') ? strrchr(plannerModelFileName, '/') + 1 : plannerModelFileName, strrchr(simModelFileName, '/') ? strrchr(simModelFileName, '/') + 1 : simModelFileName)) {",
 "planner and simulator models of the same file name in different directories","the planner model is simulated instead",['C15','C16','C24'])
m('solve-timeout-order','C18','main/zmdp.cc',
 "  while (!(reachedTargetPrecision || reachedTimeout || userTerminatedG)) {\n    // make a call",
 "  while (!(reachedTargetPrecision || reachedTimeout || (userTerminatedG && numSolverCalls > 3))) {\n    // make a call",
 "none (still stops)","control: nearly equivalent",['C18'])
m('frtdp-prio-exp','C03','search/FRTDP.cc',
 "  getPrio(cn) = std::min(r.maxPrio, (excessWidth <= 0) ? RT_PRIO_MINUS_INFINITY\n                                                       : log(excessWidth));",
 "  getPrio(cn) = std::max(r.maxPrio, (excessWidth <= 0) ? RT_PRIO_MINUS_INFINITY\n                                                       : log(excessWidth));",
 "x","priorities stay high",['C03'])
m('hsvi-outcome-width','C03','search/HSVI.cc',
 "                                pow(problem->getDiscount(), -(depth + 1)));",
 "                                pow(problem->getDiscount(), -(depth + 1))) -\n              1e-4;",
 "fine targets","zero",['C03'])
m('frtdp-maxdepth-cap','C03','search/FRTDP.cc',
 "    maxDepth *= FRTDP_MAX_DEPTH_ADJUST_RATIO;",
 "    maxDepth = std::min(maxDepth * FRTDP_MAX_DEPTH_ADJUST_RATIO, 60.0);",
 "a goal more than sixty steps from the start (long chains)","trials never reach the goal, the run never ends",['C03'])
m('hsvi-maxdepth-cap','C03','search/HSVI.cc',
 "  if (excessUnc <= 0 || depth >= RT_MAX_TRIAL_DEPTH",
 "  if (excessUnc <= 0 || depth >= 100",
 "a discounted model with effective horizon above 100 and fine target","never converges",['C03'])
m('ub-cache-stale','C02','bounds/PointUpperBound.cc',
 "    cachedUpperBound(maxUBAction) = val;",
 "    cachedUpperBound(maxUBAction) = std::min(val, cachedUpperBound(maxUBAction));",
 "none","equivalent for monotone",['C02'])
m('genmdp-validstate','C09','mdps/GenericDiscreteMDP.cc',
 "  return 0 <= s && s < numStates && s == static_cast<int>(s);",
 "  return 0 <= s && s <= numStates && s == static_cast<int>(s);",
 "a script whose state is one past the last","out of bounds",['C09'])
