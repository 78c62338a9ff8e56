M=[]
def m(id,prop,f,old,new,needs,breaks,checks=None):
    M.append(dict(id=id,prop=prop,f='src/'+f,old=old,new=new,needs=needs,breaks=breaks,checks=checks or [prop]))
# --- C05/C01
m('null-edge-skip','C05','pomdpBounds/MaxPlanesLowerBound.cc',
 "      if (!defaultIsSet) {\n        defaultPlane = &getPlaneForNode(cn);\n        defaultIsSet = true;\n      }\n      planeAO = defaultPlane;",
 "      if (!defaultIsSet) {\n        defaultPlane = &getPlaneForNode(cn);\n        defaultIsSet = true;\n      }\n      if (!useMaxPlanesMasking) continue;\n      planeAO = defaultPlane;",
 "masking off, an observation impossible at the backed-up belief, negative values","planes too high at other beliefs",['C05','C01','C02','C14'])
m('cache-plane-mask','C05','pomdpBounds/MaxPlanesLowerBound.cc',
 "    if (al->numBackupsAtCreation < lastSetPlaneNumBackups) continue;\n    if (useMaxPlanesMasking) {\n      if (!mask_subset(b, al->mask)) continue;\n    }",
 "    if (al->numBackupsAtCreation < lastSetPlaneNumBackups) continue;\n    if (useMaxPlanesMasking && !useMaxPlanesSupportList) {\n      if (!mask_subset(b, al->mask)) continue;\n    }",
 "support lists and the plane cache on, negative rewards, beliefs with partly overlapping supports","planes are used where they do not apply: lower bound too high",['C05','C01','C02'])
m('sawtooth-ratio-small','C01','pomdpBounds/SawtoothUpperBound.cc',
 "    if (0.0 == ci->value) continue;\n\n    // advance","    if (ci->value < 1e-3) continue;\n\n    // advance",
 "a stored belief with an entry below 1e-3 that the queried belief does not have","upper bound too low",['C01','C02','C27'])
m('obs-eps','C01','common/zmdpCommonDefs.h',"#define OBS_IS_ZERO_EPS (1e-10)","#define OBS_IS_ZERO_EPS (1e-4)",
 "observations with probability below 1e-4","bounds lose their mass",['C01','C02','C11'])
m('terminal-eps','C11','pomdpCore/Pomdp.cc',"  return (nonTerminalSum < 1e-10);","  return (nonTerminalSum < 1e-4);",
 "a belief with between 1e-10 and 1e-4 non-terminal mass","taken for terminal",['C11','C02','C01'])
m('hash-prec','C02','common/zmdpCommonTypes.h','XX','XX','','')
m('ub-node-min','C02','bounds/PointUpperBound.cc',
 "    updateSimple(cn, maxUBActionP);\n  } else {","    updateSimple(cn, maxUBActionP);\n  } else if (NULL == maxUBActionP) {\n    // the caller only needs the value: the best cached action suffices\n    dvector q(problem->getNumActions());\n    FOR(a, problem->getNumActions()) { q(a) = cn.Q[a].ubVal; }\n    cn.ubVal = std::min(cn.ubVal, getNewUBValueQ(cn, argmax_elt(q)));\n  } else {",
 "lrtdp/hdp with point bounds, where the best action changes after a backup","upper bound below the value",['C02','C01','C03'])
m('hdp-low','C03','search/HDP.cc',
 "      } else if (nodeStack.contains(&sn)) {\n        getLow(cn) = std::min(getLow(cn), getIdx(sn));\n      }",
 "      } else if (nodeStack.contains(&sn) && getIdx(sn) > 0) {\n        getLow(cn) = std::min(getLow(cn), getIdx(sn));\n      }",
 "hdp with a cycle through the start state","members of the component are labelled before the component is known to be consistent",['C03'])
m('hdp-flag','C03','search/HDP.cc',
 "        if (trialRecurse(sn, depth + 1)) {\n          flag = true;\n        }","        flag = trialRecurse(sn, depth + 1);",
 "hdp where not the last outcome was inconsistent","states labelled solved although a descendant is not",['C03'])
m('lrtdp-solved-prob','C03','search/LRTDP.cc',
 "        if (!getIsSolved(sn) && !open.contains(&sn) && !closed.contains(&sn)) {",
 "        if (e->obsProb > 0.05 && !getIsSolved(sn) && !open.contains(&sn) &&\n            !closed.contains(&sn)) {",
 "lrtdp with rare outcomes that matter","start labelled solved although a rare branch is not converged",['C03'])
m('lrtdp-depth-solved','C03','search/LRTDP.cc',
 "    if (residual(n) > targetPrecision) {\n      rv = false;\n      continue;\n    }",
 "    if (residual(n) > targetPrecision) {\n      if (&n == &cn || !rv) rv = false;\n      continue;\n    }",
 "lrtdp: start consistent, descendants not","labelled solved too early",['C03'])
m('frtdp-depth','C03','search/FRTDP.cc',"  if (updateQualityDiff > -FRTDP_QUALITY_MARGIN) {","  if (updateQualityDiff > FRTDP_QUALITY_MARGIN) {",
 "frtdp where new depths are not better than old ones","search depth never grows: no convergence",['C03'])
m('frtdp-prio-all','C03','search/FRTDP.cc',"      if (prio > r.maxPrio) {\n        r.maxPrio = prio;","      if (prio > r.maxPrio && e->obsProb > 1e-3) {\n        r.maxPrio = prio;",
 "rare outcomes","never explored",['C03'])
m('bench-timeout-policy','C18','main/TestDriver.cc',"      if (NULL != outPolicyFileName) {\n        // create","      if (NULL != outPolicyFileName &&\n          (solverFinished || timeSoFar < terminateWallclockSeconds)) {\n        // create",
 "benchmark ended by its time limit","final policy is not written",['C28'])
m('backup-link','C20','main/TestDriver.cc',"        if (0 != rename(outPolicyFileName, backupFileName.c_str()) &&","        unlink(backupFileName.c_str());\n        if (0 != link(outPolicyFileName, backupFileName.c_str()) &&",
 "killed while the policy is rewritten","backup shares the file that is truncated",['C20','C25'])
m('backup-name-ext','C20','main/TestDriver.cc',"        if (0 != unlink(backupFileName.c_str()) && ENOENT != errno) {","        if (!solverFinished && 0 != unlink(backupFileName.c_str()) &&\n            ENOENT != errno) {",
 "a benchmark that ends by convergence after an earlier epoch","backup is left behind",['C20','C25','C18'])
m('cache-steps','C15','exec/PolicyEvaluator.cc',"      trials[i].push_back(PESimLogEntry(simState, a, o));","      if (trials[i].empty() || !e->nextState->isTerminal || trials[i].size() < 40)\n        trials[i].push_back(PESimLogEntry(simState, a, o));",
 "trials of more than 40 steps that end in a terminal state","the last reward is lost",['C15'])
m('goal-laststep','C15','exec/PolicyEvaluator.cc',"      if (sim->terminated) {\n        numTrialsReachedGoal++;\n        break;","      if (sim->terminated) {\n        if (j + 1 < evaluationMaxStepsPerTrial) numTrialsReachedGoal++;\n        break;",
 "useEvaluationCache 0, unlimited steps or the goal at the last step","success rate too low",['C15','C16'])
m('sim-restart-time','C15','common/MDPSim.cc',"  elapsedTime = 0;\n  rewardSoFar = 0;","  if (!terminated) elapsedTime = 0;\n  rewardSoFar = 0;",
 "trials after one that terminated, evaluation cache off, discount < 1","rewards discounted too much",['C15'])
m('cache-opv-eps','C16','mdps/CacheMDP.cc',"      if (Qa.opv(o) > 0) {","      if (Qa.opv(o) > 1e-6) {","draws that hit an outcome with probability below 1e-6","null edge",['C16','C23','C10'])
m('chain-belief-zero','C24','exec/BoundPairExec.cc',"  currentState = mdp->getInitialState();\n  currentStateInitialized = true;","  if (!currentStateInitialized) currentState = mdp->getInitialState();\n  currentStateInitialized = true;",
 "an executive used for a second run","second run starts where the first ended",['C24','C15','C06'])
m('exec-terminal-keep','C24','exec/BoundPairExec.cc',"  mdp->getNextState(nextState, currentState, a, o);\n  currentState = nextState;","  mdp->getNextState(nextState, currentState, a, o);\n  if (!getStateIsTerminal()) currentState = nextState;","terminal belief","absorbing: equivalent?",['C24'])
m('exec-getnode','C26','bounds/BoundPair.cc',"          problem->getNextState(sp, s, a, o);\n          lbVal += opv(o) * lowerBound->getValue(sp, getNodeOrNull(sp));","          problem->getNextState(sp, s, a, o);\n          lbVal += opv(o) * const_cast<BoundPair *>(this)->getNode(sp)->lbVal;",
 "evaluation during a run","evaluating adds nodes: counters and later values differ",['C26','C04','C24'])
m('fast-obs-check','C09','parsers/FastParser.cc',"      FOR(s, p.numStates) {\n        copy_from_column(checkTmp, checkObs, s);","      FOR(s, p.numStates - 1) {\n        copy_from_column(checkTmp, checkObs, s);","fast parser, last state's observation probabilities do not sum to 1","accepted",['C08','C09','C07'])
m('fast-trans-check','C08','parsers/FastParser.cc',"      copy_from_column(checkTmp, p.Ttr[a], s);\n      if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {","      copy_from_column(checkTmp, p.Ttr[a], s);\n      if (checkTmp.filled() > 1 &&\n          fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {","a row with a single entry that is not 1, or an empty row","accepted",['C08','C09'])
m('fast-start-small','C08','parsers/FastParser.cc',"        if (vals[i] > SPARSE_EPS) {","        if (vals[i] > 1e-4) {","fast parser with start entries below 1e-4","dropped",['C08'])
m('fast-comment-hash','C08','parsers/FastParser.cc',"    if ('#' == buf[0]) continue;\n    trim","    if (char *c = strchr(buf, '#')) *c = '\\0';\n    trim","names cannot contain #","equivalent",['C08'])
m('quantile-low','C15','common/MatrixUtils.h',"  quantile1 = getQuantile(bvals, alpha / 2);","  quantile1 = getQuantile(bvals, alpha);","always","interval too narrow at its lower end",['C15'])
m('choose-last','C16','common/MatrixUtils.h',"    result = CV_INDEX(b);\n    r -= CV_VAL(b);\n    if (r <= 0) return result;","    r -= CV_VAL(b);\n    if (r <= 0) return CV_INDEX(b);\n    result = CV_INDEX(b);","sparse distributions summing to less than the draw","returns last positive anyway: equivalent",['C16'])
m('mask-copy-break','C12','common/sla_mask.h',"        if (mi->index == xi->index) {\n          result.push_back(xi->index, xi->value);\n        }\n        goto next_xi;","        if (mi->index == xi->index) {\n          result.push_back(xi->index, xi->value);\n          mi++;\n        }\n        goto next_xi;","none","equivalent (control)",['C12'])
m('mask-subset-skip','C12','common/sla_mask.h',"      if (xi->index < mi->index) return false;","      if (xi->index < mi->index && mi != m.data.begin()) return false;","a vector with entries before the first of the mask","infinite? index skip",['C12','C05','C02'])
m('log-truncate-qvals','C19','search/RTDPCore.cc',"  StateLog log(&index);\n  FOR_EACH(node, backedUpNodes) { log.addState((*node)->s); }","  StateLog log(&index);\n  FOR_EACH(node, backedUpNodes) {\n    if (log.size() > 0 && (*node)->isTerminal) continue;\n    log.addState((*node)->s);\n  }","backups of terminal states","missing from the log",['C19','C04'])
m('script-id-zero','C19','search/ScriptedUpdater.cc',"    MDPNode &cn = *bounds->getNode(s);\n\n    bounds->update(cn, &dummy);\n    trackBackup(cn);","    MDPNode &cn = *bounds->getNode(s);\n\n    if (!cn.isTerminal || !cn.isFringe()) bounds->update(cn, &dummy);\n    trackBackup(cn);","a logged backup of a terminal state","replay does fewer backups",['C19'])
m('boundvalues-ub-null','C19','search/StateLog.cc',"      ValueInterval intv = bounds.getQValue(s, a);\n      out << i << \" \" << a << \" \" << setprecision(20) << intv.l << \" \"","      ValueInterval intv = bounds.getQValue(s, a);\n      if (intv.l > intv.u) intv.l = intv.u;\n      out << i << \" \" << a << \" \" << setprecision(20) << intv.l << \" \"","a maintained single bound: the other is -1","lower value clipped to -1",['C02','C04'])
m('alias-space','C17','common/zmdpConfig.cc',"    if ('#' == buf[0]) continue;\n    if (0 == strncmp(buf, \"alias\", 5)) {","    if ('#' == buf[0]) continue;\n    if (0 == strncmp(buf, \"alias \", 6)) {","a config file whose alias line uses a tab","treated as a field",['C17'])
m('config-last','C17','common/zmdpConfig.cc',"    if (in.fail()) {\n      if (in.eof()) break;","    if (in.fail() || in.eof()) {\n      if (in.eof()) break;","a config file whose last line has no newline","its last line is ignored",['C17'])
m('config-dash-value','C17','common/zmdpConfig.cc',"        setString(arg.substr(2), *argp);","        setString(arg.substr(2), (*argp == \"--\") ? *++argp : *argp);","an option whose value is --","skipped",['C17'])
m('run-select-default','C14','main/solverUtils.cc',"      p.useUpperBoundRunTimeActionSelection = !p.maintainLowerBound;","      p.useUpperBoundRunTimeActionSelection =\n          !p.maintainLowerBound || V_POINT == p.lowerBoundRepresentation;","point lower bound and default runTimeActionSelection","runs act by the upper bound",['C28'])
m('maxhor-blind','C21','pomdpBounds/BlindLBInitializer.cc',"          (1.0 - pow(pomdp->getDiscount(), pomdp->maxHorizon + 1.0)) /","          (1.0 - pow(pomdp->getDiscount(), pomdp->maxHorizon)) /","maxHorizon with discount < 1","mine",['C21'])
m('dump-lowprec','C22','pomdpModels/lifeSurvey/LSModelFile.cc','XX','XX','','')
m('hsvi-root','C26','search/RTDPCore.cc',"RTDPCore::RTDPCore(void) : boundsFile(NULL), initialized(false) {","RTDPCore::RTDPCore(void) : boundsFile(NULL), lastPrintTime(0), initialized(false) {","none","equivalent (control)",['C26'])
m('frtdp-olddepth','C26','search/FRTDP.cc',"  oldMaxDepth = 0;\n  maxDepth","  maxDepth","reads an uninitialised member in the first trial","search depends on heap contents",['C26','C10'])
m('prio-time','C26','search/HSVI.cc',"  trialTargetPrecision = (cn.ubVal - cn.lbVal) * HSVI_IMPROVEMENT_CONSTANT;","  if (timevalToSeconds(getTime() - boundsStartTime) < 600)\n    trialTargetPrecision = (cn.ubVal - cn.lbVal) * HSVI_IMPROVEMENT_CONSTANT;","hsvi, more than ten minutes into a run","behaviour depends on the clock",['C26'])
m('dup-action-tie','C27','bounds/BoundPair.cc',"    maxLBVal = std::max(maxLBVal, lbVal);\n    if (ubVal > maxUBVal) {","    maxLBVal = std::max(maxLBVal, lbVal);\n    if (ubVal > maxUBVal + 1e-3) {","dual point bounds: two actions whose values differ by less than 1e-3","upper bound too low",['C27','C01','C02'])
m('maxact-63','C27','bounds/PointUpperBound.cc',"    ubVal = Qa.immediateReward + problem->getDiscount() * ubVal;\n    Qa.ubVal = ubVal;\n\n    if (ubVal > maxUBVal) {","    ubVal = Qa.immediateReward + problem->getDiscount() * ubVal;\n    Qa.ubVal = ubVal;\n\n    if (ubVal > maxUBVal && a < 6) {","models with more than six actions, point upper bounds","an action is ignored",['C27','C01','C13'])
m('sparse-big','C27','pomdpBounds/SawtoothUpperBound.cc',"  if (innerCornerPtsC <= cVal) {","  if (innerCornerPtsC <= cVal || (b.filled() > 64 && c.filled() > 64 && (innerCornerPtsC += 0.5) < 0)) {","beliefs with more than 64 entries","upper bound too low",['C27'])
