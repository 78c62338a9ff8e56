M=[]
def m(id,f,old,new):
    M.append((id,'src/pomdpModels/RockExplore/'+f,old,new))
m('re-vote','RockExplorePolicy.cc',"voteTotals[vfn.getMaxQAction(s)] += b[i].prob;","voteTotals[vfn.getMaxQAction(s)] += 1.0;")
m('re-dist','RockExplore.cc',"(manhattanDistance > 0) ? 1 : 0","(manhattanDistance > 1) ? 1 : 0")
m('re-hu','RockExplorePolicy.cc',"static_cast<double>(m.getNumStates())","static_cast<double>(b.size())")
m('re-hskip','RockExplorePolicy.cc',"    if (p > 0.0) {\n      sum += p * log(p);","    if (p > 1e-2) {\n      sum += p * log(p);")
m('re-gamma','zmdpRockExplore.cc',"pow(RE_DISCOUNT, timeStep) * out.reward","pow(RE_DISCOUNT, timeStep + (sp == 0)) * out.reward")
m('re-steps','zmdpRockExplore.cc',"maxSteps = 100","maxSteps = 30")
m('re-mlk','REBasicPomdp.cc',"    if (b[i].prob > maxProb) {","    if (b[i].prob >= maxProb + 0.05) {")
m('re-reset','RockExplorePolicy.cc',"void HeuristicPolicy::setToInitialState(void) { b = m.getInitialBelief(); }","void HeuristicPolicy::setToInitialState(void) {\n  if (b.empty() || 1 == b.size()) b = m.getInitialBelief();\n}")
m('re-prior','RockExplore.cc',"    if (prob > 0.0) {","    if (prob > 0.01) {")
m('re-vi','RockExplorePolicy.cc',"valueIterationToResidual(1e-3);","valueIterationToResidual(8.0);")
m('re-vi6','zmdpRockExplore.cc',"valueIterationToResidual(1e-3);","valueIterationToResidual(8.0);")
m('re-tie','RockExplorePolicy.cc',"#define TIE_BREAK_EPS (1e-12)","#define TIE_BREAK_EPS (1e-1)")
m('re-qdisc','RockExplorePolicy.cc',"      nextStateVal += out.obsProbs[o] * getValue(nextBelief);","      nextStateVal += getValue(nextBelief) / m.getNumObservations();")
m('re-wterm','REBasicPomdp.cc',"      for (int o = 0; o < getNumObservations(); o++) {\n        double obsProb = getObsProb(ai, si, o);","      for (int o = 0; o < getNumObservations(); o++) {\n        double obsProb = getObsProb(ai, res.outcomes[0].index, o);")
m('re-mean','zmdpRockExplore.cc',"    samples[i] = sim.totalReward;","    samples[i] = std::max(sim.totalReward, -50.0);")
m('re-sampleorder','RockExplore.cc',"            nextState.rockIsGood[r] = false;","            if (s.rockIsGood[r]) nextState.rockIsGood[r] = (0 == s.robotPos.x && 0 == s.robotPos.y);")
