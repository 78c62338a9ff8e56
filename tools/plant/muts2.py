M=[]
def m(id,prop,f,old,new,needs,breaks,checks=None):
    M.append(dict(id=id,prop=prop,f='src/'+f,old=old,new=new,needs=needs,breaks=breaks,checks=checks or [prop]))
m('dual-backup-no-discount-lb','C01','bounds/BoundPair.cc',
 "    lbVal = Qa.immediateReward + problem->getDiscount() * lbVal;\n    ubVal = Qa.immediateReward + problem->getDiscount() * ubVal;\n    Qa.lbVal = lbVal;",
 "    lbVal = Qa.immediateReward + (lbVal > 0 ? 1.0 : problem->getDiscount()) * lbVal;\n    ubVal = Qa.immediateReward + problem->getDiscount() * ubVal;\n    Qa.lbVal = lbVal;",
 "dual point bounds on a discounted model with positive values","lower bound above the optimum",['C01','C02','C14'])
m('expand-merge-outcomes','C01','bounds/BoundPair.cc',
 "        e->obsProb = oprob;\n        e->nextState = getNode(problem->getNextState(sp, cn.s, a, o));",
 "        e->nextState = getNode(problem->getNextState(sp, cn.s, a, o));\n        e->obsProb = e->nextState->isTerminal ? 1.0 : oprob;",
 "an action with a terminal outcome of probability < 1 (terminal value 0)","none for values (0 * p) - equivalent except for search weights",['C01'])
m('getvalueat-node','C04','bounds/BoundPair.cc',
 "  return ValueInterval(maintainLowerBound ? lowerBound->getValue(s, cn) : -1,\n                       maintainUpperBound ? upperBound->getValue(s, cn) : -1);",
 "  return ValueInterval(maintainLowerBound ? lowerBound->getValue(s, cn) : -1,\n                       maintainUpperBound ? upperBound->getValue(s, NULL) : -1);",
 "boundValues.log with point upper bounds","logged bounds are the initial heuristic, not the search's",['C04','C19','C02','C01'])
m('qvalue-lb-drop','C04','bounds/BoundPair.cc',
 "      if (maintainLowerBound) {\n        lbVal += opv(o) * lowerBound->getValue(sp, spn);\n      }\n      if (maintainUpperBound) {\n        ubVal += opv(o) * upperBound->getValue(sp, spn);\n      }",
 "      if (maintainLowerBound) {\n        lbVal += opv(o) * lowerBound->getValue(sp, spn);\n      }\n      if (maintainUpperBound && NULL != spn) {\n        ubVal += opv(o) * upperBound->getValue(sp, spn);\n      }",
 "q.log with a successor that the search never reached","Q upper bounds leave out unexplored successors",['C04','C19','C01'])
m('hash-precision','C02','common/zmdpCommonDefs.h' , 'XX','XX','','')
m('maxplanes-default-node','C01','pomdpBounds/MaxPlanesLowerBound.cc',
 "    } else if (!pomdp->isTerminalState[si->index]) {\n      result.push_back(si->index, worstCaseVal);\n    }",
 "    } else if (!pomdp->isTerminalState[si->index] && worstCaseVal < 0) {\n      result.push_back(si->index, worstCaseVal);\n    }",
 "masking, positive worst case value","only weaker (sound)",['C01'])
m('ub-min-lost','C02','pomdpBounds/SawtoothUpperBound.cc',
 "  double newUBVal = std::min(cn.ubVal, getNewUBValue(cn, maxUBActionP));","  double newUBVal = getNewUBValue(cn, maxUBActionP);",'mine','mine')
m('corner-overwrite','C02','pomdpBounds/SawtoothUpperBound.cc',
 "    if (fabs(b(i)) > CORNER_EPS) {","    if (fabs(b(i)) > 1e-3) {",
 "a belief that is within 1e-3 of a corner","the value of a near-corner belief is stored as the corner's: upper bound too low at the corner",['C01','C02','C14'])
m('sawtooth-prune-wrong-cache','C14','pomdpBounds/SawtoothUpperBound.cc',
 "  FOR_EACH(ptP, pts) {\n    BVPair *pt = *ptP;\n    pt->innerCornerCache = inner_prod(cornerPts, pt->b);\n  }",
 "  FOR_EACH(ptP, pts) {\n    BVPair *pt = *ptP;\n    if (pt->numBackupsAtCreation > lastPruneNumBackups) {\n      pt->innerCornerCache = inner_prod(cornerPts, pt->b);\n    }\n  }",
 "a corner value improved between two prunings","points are pruned by comparison against an outdated corner value: upper bound jumps up",['C02','C14'])
m('fib-terminal-before','C01','pomdpBounds/FastInfUBInitializer.cc',
 "  } while (maxResidual > targetPrecision);","  } while (maxResidual > targetPrecision && --maxSweeps > 0);","x","x")
m('fib-skip-last-obs','C01','pomdpBounds/FastInfUBInitializer.cc',
 "        if (0 == i) {\n            beta_ao = beta_aoi;","        if (0 == i && 0 == o) {\n            beta_ao = beta_aoi;","compounding max","weaker? uses max over obs",['C01'])
m('mdp-vi-maxiters','C01','pomdpBounds/FullObsUBInitializer.cc',
 "    if (residual < eps) {","    if (residual < eps * MDP_MAX_ITERS) {",
 "positive rewards with a discount close to 1","value iteration from zero stops early, so the initial upper bound is below the optimum",['C01','C02','C21'])
m('blind-select','C01','pomdpBounds/BlindLBInitializer.cc','XX','XX','','')
m('relax-tiebreak','C01','bounds/RelaxUBInitializer.cc',
 "      std::max(altActionPrio, costSoFar + weight * secondBestUBVal);","      std::max(altActionPrio, costSoFar + cn.ubVal);",
 "a racetrack","may stop immediately: never converges",['C01'])
m('exec-zero-filled','C06','exec/BoundPairExec.cc',"  state_vector nextState;\n  mdp->getNextState(nextState, currentState, a, o);\n  currentState = nextState;",
 "  mdp->getNextState(currentState, currentState, a, o);","x","aliasing",['C06','C15','C16'])
m('quantile-index','C15','common/MatrixUtils.h',"  double x = p * n - 0.5;\n","  double x = p * (n - 1) - 0.5;\n","always","the confidence interval is shifted by a fraction of a sample",['C15'])
m('bootstrap-bias','C15','common/MatrixUtils.h',"      int k = std::min(static_cast<int>(unit_rand() * n), n - 1);","      int k = std::min(static_cast<int>(unit_rand() * n + 0.5), n - 1);","mine?","resampling favours the last sample and halves the first",['C15'])
m('batch-mean-uneven','C15','exec/PolicyEvaluator.cc',"    successRateSum += batchSuccessRate * numTrialsPerBatch;","    successRateSum += batchSuccessRate * (evaluationTrialsPerEpoch / static_cast<double>(numBatches));","trials not a multiple of 30","success rate is weighted wrongly",['C15'])
m('cache-a-stale','C15','exec/PolicyEvaluator.cc',"      if (-1 == simState->userInt) {\n        a = exec->chooseAction();","      if (-1 == simState->userInt || simState->isTerminal) {\n        a = exec->chooseAction();","none","equivalent",['C15'])
m('sim-discount-first','C15','common/MDPSim.cc','XX','XX','','')
m('rtdp-done','C03','search/RTDP.cc','XX','XX','','')
m('argmax-neg','C12','common/MatrixUtils.h',"  if (maxval >= 0 || v.filled() == v.size()) {","  if (maxval >= 0 || v.filled() + 1 >= v.size()) {","a sparse vector with all stored entries negative and exactly one entry missing","argmax is a negative entry rather than the zero one",['C12'])
m('mask-subset-tail','C12','common/sla_mask.h',"      if (xi->index == mi->index) {\n        mi++;\n        goto next_xi;","      if (xi->index == mi->index) {\n        if (mi + 1 == mend) return true;\n        mi++;\n        goto next_xi;","a vector with entries after the last entry of the mask","a vector is taken for a subset although its tail is outside",['C12','C14','C05'])
m('stdev-n','C12','common/MatrixUtils.h',"    stdev = sqrt((sqsum - (sum * sum) / n) / (n - 1));","    stdev = sqrt((sqsum - (sum * sum) / n) / n);","always","standard deviation underestimated",['C12'])
m('hashable-neg','C12','common/MatrixUtils.h',"  FOR_CV(b) { addHashEntry(buf, CV_INDEX(b), CV_VAL(b)); }","  FOR_CV(b) {\n    if (CV_VAL(b) > 1e-9) addHashEntry(buf, CV_INDEX(b), CV_VAL(b));\n  }","two beliefs that differ in tiny entries","different beliefs share a node",['C02','C12','C01'])
m('getnextbelief-order','C11','pomdpCore/Pomdp.cc','XX','XX','','')
m('storage-corner','C04','pomdpBounds/SawtoothUpperBound.cc',"        entryCount += p.b.filled() + 1;  // (add one for the value)","        entryCount += p.b.filled();","storage log","entry counts leave out values",['C24'])
m('ubplot-after-done','C04','search/RTDPCore.cc',"                    << bounds->numStatesExpanded << \" \" << numTrials << \" \"\n                    << bounds->numBackups << endl;","                    << bounds->numStatesExpanded << \" \" << numTrials << \" \"\n                    << bounds->numBackups + (done ? 1 : 0) << endl;","last line","count of backups one too many on the last line",['C04'])
m('terminate-backups-strict','C03','search/RTDPCore.cc',"  done = done || (bounds->numBackups >= terminateNumBackups);","  done = done || (bounds->numBackups > terminateNumBackups);","terminateNumBackups equal to the exact number of backups after a trial","an extra trial is made",['C03','C04','C19'])
m('hsvi-second-update','C03','search/HSVI.cc',"  return (cn.ubVal - cn.lbVal < targetPrecision);","  return (cn.ubVal - cn.lbVal < targetPrecision / HSVI_IMPROVEMENT_CONSTANT);","hsvi whose last trial ends between eps and eps/0.95","reported converged with regret bound above the requested",['C03'])
m('frtdp-excess','C03','search/FRTDP.cc',"  numTrials++;\n\n  return (cn.ubVal - cn.lbVal < targetPrecision);","  numTrials++;\n\n  return (cn.ubVal - cn.lbVal < targetPrecision) || (RT_PRIO_MINUS_INFINITY == getPrio(cn));","frtdp on zero-discount etc","might terminate with excess width equal to eps constant",['C03'])
m('inc-last','C15','main/TestDriver.cc',"        // or when the run ends because the solver signaled it is done\n        || solverFinished) {","        // or when the run ends because the solver signaled it is done\n        || (solverFinished && logLastSimTime < 0)) {","a solver that finishes after the first evaluation epoch","no final evaluation / policy",['C15','C18','C20'])
m('stateid-hash','C19','search/StateLog.cc',"  typeof(lookup.begin()) pr = lookup.find(hs);\n  if (lookup.end() == pr) {\n    state_vector *sCopyP","  typeof(lookup.begin()) pr = lookup.find(hs.substr(0, 256));\n  if (lookup.end() == pr) {\n    state_vector *sCopyP","x","x",['C19'])
m('nodehandlers-order','C10','bounds/BoundPair.cc','XX','XX','','')
M=[x for x in M if x['old']!='XX' and x['needs']!='x' or x['id'] in('exec-zero-filled',)]
M=[x for x in M if x['needs'] not in('mine',)]
