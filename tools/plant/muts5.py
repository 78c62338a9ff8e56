M=[]
def m(id,prop,f,old,new,needs,breaks,checks): M.append(dict(id=id,prop=prop,f='src/'+f,old=old,new=new,needs=needs,breaks=breaks,checks=checks))
L='pomdpModels/lifeSurvey/'
m('lspath-level2','C22',L+'LSPathAndReactExec.cc',"rewardLevelInRegion[r] < 3 &&","rewardLevelInRegion[r] < 2 &&","confirmed unsampled region","not sampled",['C22'])
m('lspath-conf','C22',L+'LSPathAndReactExec.cc',"LS_BASE_NUM_OBSERVATIONS - 1 == o.life","LS_BASE_NUM_OBSERVATIONS - 2 <= o.life","medium reading","counts as life",['C22'])
m('lspath-turn','C22',L+'LSPathAndReactExec.cc',"      if (LS_OBSTACLE == r ||\n          (LS_NE == currentLSState.lastMoveDirection && LS_SE == dir) ||\n          (LS_SE == currentLSState.lastMoveDirection && LS_NE == dir)) {","      if (LS_OBSTACLE == r ||\n          (LS_NE == currentLSState.lastMoveDirection && LS_SE == dir)) {","SE then NE","illegal turn",['C22'])
m('lspath-pow','C22',L+'LSPathAndReactExec.cc',"nextValueSoFar.regionCounts[r]);\n        nextValueSoFar.unr","std::min(nextValueSoFar.regionCounts[r], 4));\n        nextValueSoFar.unr","5 cells seen of a region","worth the same as 4",['C22'])
m('lspath-dist','C22',L+'LSPathAndReactExec.cc',"    if (dx * dy < 0) {","    if (dx * dy > 0) {","off-path","distance wrong",['C22'])
m('lspath-domdir','C22',L+'LSPathAndReactExec.cc',"                                    pe.lastMoveDirection];","                                    (pe.lastMoveDirection & 1)];","NE/E share","valid path pruned",['C22'])
m('lspath-domstrict','C22',L+'LSPathAndReactExec.cc',"    if (val1.regionCounts[i] < val2.regionCounts[i]) return false;","    if (val1.regionCounts[i] + 1 < val2.regionCounts[i]) return false;","differs by one","pruned",['C22'])
m('calcls-cost','C22',L+'calcLSTrialStats.cc',"      unsigned char cellType = f.grid.getCellBounded(nextPos);\n      if (LS_OBSTACLE == cellType) {","      unsigned char cellType = f.grid.getCellBounded(nextPos);\n      if (LS_OBSTACLE == cellType) {\n        cost = 1;","illegal sampling move","cost 1",['C22','C25'])
m('calcls-look','C22',L+'calcLSTrialStats.cc',"    double net = reward - cost - penalty;","    double net = reward - cost - penalty;\n    if (penalty > 0) step--;","illegal move","discount",['C22','C25'])
m('calcls-start','C22',L+'calcLSTrialStats.cc',"  regionRewards[r] = 1;","  regionRewards[r] = (LS_OBSTACLE == r) ? 1 : 0;","start region","first reward counted",['C22','C25'])
m('gentl-noise','C22',L+'genTargetLocations.cc',"noisyPriors[r] *= (1.0 + noise);","noisyPriors[r] = m.regionPriors[0] * (1.0 + noise);","noise","prior of region 0",['C22','C25'])
m('gentl-order','C22',L+'genTargetLocations.cc',"    if (i % 5 == 0) {","    if (i % 5 == 0 && i < 40) {","many targets","long line",['C22','C25'])
m('rt-discounted-start','C13','mdps/RaceTrack.cc',"1.0 == discount && IS_INITIAL_STATE(s)","1.0 - discount < 0.02 && IS_INITIAL_STATE(s)","0.99","free crash",['C13'])
m('rt-windvec','C13','mdps/RaceTrack.cc',"      FOR(i, 8) { result(RT_SLIP + i) = errorProbability / 8; }","      FOR(i, 8) { result(RT_SLIP + i) = errorProbability / (8 + (i > 6)); }","wind","not 1",['C13'])
m('rt-slipcheck','C13','mdps/RaceTrack.cc',"      RT_CHECK_OUTCOME(RT_SLIP, 0, 0);","      if (RT_NORMAL == lineType) RT_CHECK_OUTCOME(RT_SLIP, 0, 0);","crash normal + slip through","slip goes through walls",['C13'])
m('sim-lastoutcome','C16','common/MDPSim.cc','XX','XX','','',[])
m('exec-latestbelief','C24','exec/BoundPairExec.cc',"  currentState = nextState;\n}","  if (nextState.filled() > 0) currentState = nextState;\n}","impossible observation under planner model","keeps going",['C15','C16','C24','C09'])
m('exec-setbelief','C24','exec/BoundPairExec.cc',"{ currentState = b; }","{\n  if (!currentStateInitialized) currentState = b;\n  currentState = b;\n}","control","none",['C24'])
m('relax-fringe-lb','C01','bounds/RelaxUBInitializer.cc',"      if (sn.ubVal > bestVal) {","      if (sn.lbVal > bestVal) {","","perf only",['C01'])
m('relax-cost','C01','bounds/RelaxUBInitializer.cc',"        Qa.ubVal = std::max(Qa.ubVal, sn.ubVal);","        if (e->obsProb > 1e-3) Qa.ubVal = std::max(Qa.ubVal, sn.ubVal);","rare outcome","ub too low",['C01'])
m('lsfile-pad','C22',L+'LSModelFile.cc','XX','XX','','',[])
