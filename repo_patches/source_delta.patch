From d96611f0bb7a551588c077b255d929e634c697b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 01/75] fix: discounted racetracks hung while computing the
 relaxation heuristic

Trial priorities ignored the discount below the root, so a trial could stop
before changing any value and the initialisation loop never ended.
---
 src/bounds/RelaxUBInitializer.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bounds/RelaxUBInitializer.cc b/src/bounds/RelaxUBInitializer.cc
index 5b0513b..ae87f73 100644
--- a/src/bounds/RelaxUBInitializer.cc
+++ b/src/bounds/RelaxUBInitializer.cc
@@ -37,6 +37,7 @@ using namespace sla;
 using namespace MatrixUtils;
 
 #define OBS_IS_ZERO_EPS (1e-10)
+#define RELAX_PRIO_EPS (1e-10)
 
 namespace zmdp {
 
@@ -154,9 +155,13 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   double maxUBVal, secondBestUBVal;
   int maxUBAction = getMaxUBAction(cn, &maxUBVal, &secondBestUBVal);
 
-  // check for termination
-  double actionPrio = costSoFar + cn.ubVal;
-  if (altActionPrio > actionPrio) {
+  // check for termination.  costSoFar and the priorities are values as
+  // seen from the root, so what lies below depth is discounted; the
+  // margin keeps round-off error from stopping a trial that ties with
+  // the alternative (it would never make progress).
+  double weight = pow(problem->getDiscount(), depth);
+  double actionPrio = costSoFar + weight * cn.ubVal;
+  if (altActionPrio > actionPrio + RELAX_PRIO_EPS) {
     if (zmdpDebugLevelG >= 1) {
       printf(
           "  RB trialRecurse: depth=%d [%g .. %g] costSoFar=%g "
@@ -191,9 +196,10 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   }
 
   // recurse to successor
-  double nextCostSoFar = costSoFar + cn.Q[maxUBAction].immediateReward;
+  double nextCostSoFar =
+      costSoFar + weight * cn.Q[maxUBAction].immediateReward;
   double nextAltActionPrio =
-      std::max(altActionPrio, secondBestUBVal + costSoFar);
+      std::max(altActionPrio, costSoFar + weight * secondBestUBVal);
   trialRecurse(cn.getNextState(maxUBAction, bestOutcome), nextCostSoFar,
                nextAltActionPrio, depth + 1);
 
-- 
2.43.0


From a8394ed5c9a71a7e59851190e6a88ad797aeacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 02/75] fix: masked lower bound planes overestimated states
 that negligible entries lead to

Successor beliefs leave out entries and observations of negligible
probability, so the plane found for a successor need not apply to every
state that can follow the backed-up belief.  The backup treated its value
at such states as zero (too high if rewards are negative), and the new
plane, applied to another belief with the same non-zero entries, then
exceeded the optimal value.
---
 src/pomdpBounds/BlindLBInitializer.cc  | 10 ++++
 src/pomdpBounds/MaxPlanesLowerBound.cc | 65 +++++++++++++++++++-------
 src/pomdpBounds/MaxPlanesLowerBound.h  |  3 ++
 3 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/pomdpBounds/BlindLBInitializer.cc b/src/pomdpBounds/BlindLBInitializer.cc
index a36c33f..492b09e 100644
--- a/src/pomdpBounds/BlindLBInitializer.cc
+++ b/src/pomdpBounds/BlindLBInitializer.cc
@@ -85,6 +85,16 @@ void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha) {
   assert(longTermFactor != POMDP_LONG_TERM_UNBOUNDED);
 
   double worstCaseLongTerm = worstCaseReward * longTermFactor;
+
+  // the value of the worst course of action from the worst state
+  double minReward = 0.0;
+  FOR(a, pomdp->getNumActions()) {
+    FOR(s, pomdp->numStates) {
+      minReward = std::min(minReward, pomdp->R(s, a));
+    }
+  }
+  bound->worstCaseVal = minReward * longTermFactor;
+
   FOR(i, pomdp->numStates) { worstCaseDVector(i) = worstCaseLongTerm; }
 
   // post-process: make sure the value for all terminal states
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index abd2778..56cbd84 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -127,7 +127,8 @@ MaxPlanesLowerBound::MaxPlanesLowerBound(const MDP *_pomdp,
     : pomdp((const Pomdp *)_pomdp),
       config(_config),
       core(NULL),
-      initialized(false) {
+      initialized(false),
+      worstCaseVal(0.0) {
   lastPruneNumPlanes = 0;
   lastPruneNumBackups = -1;
   useMaxPlanesMasking = config->getBool("useMaxPlanesMasking");
@@ -163,6 +164,30 @@ double MaxPlanesLowerBound::getValue(const belief_vector &b,
   return v;
 }
 
+// for all i in states: result(i) = plane.alpha(i) if i is in the plane's mask;
+// otherwise a value that any course of action is sure to achieve from i.
+void MaxPlanesLowerBound::extendAlpha(alpha_vector &result,
+                                      const LBPlane &plane,
+                                      const alpha_vector &states) const {
+  typeof(plane.alpha.data.begin()) ai = plane.alpha.data.begin(),
+                                   aend = plane.alpha.data.end();
+  typeof(plane.mask.data.begin()) mi = plane.mask.data.begin(),
+                                  mend = plane.mask.data.end();
+
+  result.resize(plane.alpha.size());
+  FOR_EACH(si, states.data) {
+    while (mi != mend && mi->index < si->index) mi++;
+    if (mi != mend && mi->index == si->index) {
+      while (ai != aend && ai->index < si->index) ai++;
+      if (ai != aend && ai->index == si->index) {
+        result.push_back(ai->index, ai->value);
+      }
+    } else if (!pomdp->isTerminalState[si->index]) {
+      result.push_back(si->index, worstCaseVal);
+    }
+  }
+}
+
 // lower bound on long-term reward for taking action a (alpha vector)
 void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
   alpha_vector betaA(pomdp->getBeliefSize());
@@ -172,33 +197,39 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
   set_to_zero(betaA);
 
   bool defaultIsSet = false;
-  const alpha_vector *defaultBetaAO = NULL;
+  const LBPlane *defaultPlane = NULL;
+  const LBPlane *planeAO;
   const MDPQEntry &Qa = cn.Q[a];
-  alpha_vector maskedBeta;
+  alpha_vector reachable, extendedBeta;
+  if (useMaxPlanesMasking) {
+    // all states that can follow the states of cn.s.  this can be more than
+    // the states of the successor beliefs, which leave out entries and
+    // observations whose probability is negligible at cn.s.
+    mask_set_to_one(tmp, cn.s);
+    mult(reachable, pomdp->Ttr[a], tmp);
+  }
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
-      betaAO = &getPlaneForNode(*e->nextState).alpha;
-      if (useMaxPlanesMasking) {
-        // occasionally, even if the nextState belief is sparse, the
-        // corresponding betaAO is one of the dense alpha vectors produced
-        // by the initial blind-policy heuristic.  in that case, we can
-        // speed up the matrix multiplication below by masking betaAO with
-        // the nextState belief (so it becomes much sparser).
-        if (betaAO->filled() > cn.s.filled()) {
-          mask_copy(maskedBeta, *betaAO, e->nextState->s);
-          betaAO = &maskedBeta;
-        }
-      }
+      planeAO = &getPlaneForNode(*e->nextState);
     } else {
       // impossible to see this observation, so it doesn't make sense to
       // pick the alpha that optimizes for the next belief.  plug in a
       // default alpha (arbitrarily chosen to optimize for cn.s).
       if (!defaultIsSet) {
-        defaultBetaAO = &getPlaneForNode(cn).alpha;
+        defaultPlane = &getPlaneForNode(cn);
         defaultIsSet = true;
       }
-      betaAO = defaultBetaAO;
+      planeAO = defaultPlane;
+    }
+    if (useMaxPlanesMasking) {
+      // the new plane will be used at every belief whose non-zero entries are
+      // a subset of those of cn.s, so it has to account for all reachable
+      // states, including any that planeAO doesn't apply to.
+      extendAlpha(extendedBeta, *planeAO, reachable);
+      betaAO = &extendedBeta;
+    } else {
+      betaAO = &planeAO->alpha;
     }
 
     emult_column(tmp, pomdp->O[a], o, *betaAO);
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.h b/src/pomdpBounds/MaxPlanesLowerBound.h
index f55a3a6..11c5270 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.h
+++ b/src/pomdpBounds/MaxPlanesLowerBound.h
@@ -70,6 +70,7 @@ struct MaxPlanesLowerBound : public IncrementalLowerBound {
   bool useMaxPlanesCache;
   bool useMaxPlanesExtraPruning;
   bool initialized;
+  double worstCaseVal;
 
   MaxPlanesLowerBound(const MDP *_pomdp, const ZMDPConfig *_config);
   ~MaxPlanesLowerBound(void);
@@ -80,6 +81,8 @@ struct MaxPlanesLowerBound : public IncrementalLowerBound {
   void update(MDPNode &cn);
   int chooseAction(const state_vector &b);
 
+  void extendAlpha(alpha_vector &result, const LBPlane &plane,
+                   const alpha_vector &states) const;
   void getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a);
   void getNewLBPlane(LBPlane &result, MDPNode &cn);
   void updateLowerBound(MDPNode &cn);
-- 
2.43.0


From 63c9390e6ce599421f31b4fa0bc1982557e6aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 03/75] fix: backup with the sawtooth representation could
 raise a node's upper bound

---
 src/pomdpBounds/SawtoothUpperBound.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 033e627..c93a5d6 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -74,7 +74,9 @@ void SawtoothUpperBound::initNodeBound(MDPNode &cn) {
 }
 
 void SawtoothUpperBound::update(MDPNode &cn, int *maxUBActionP) {
-  double newUBVal = getNewUBValue(cn, maxUBActionP);
+  // the interpolation between points is not convex, so a backup can come out
+  // higher than the bound already established for this node; keep that one
+  double newUBVal = std::min(cn.ubVal, getNewUBValue(cn, maxUBActionP));
   setUBForNode(cn, newUBVal, true);
 }
 
-- 
2.43.0


From 05b5e3b963a0f0e94ae98a5a50712c2adf5c6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 04/75] fix: pruning could leave beliefs without any applicable
 lower bound plane

Extra pruning deletes every plane that is not the best one at a node so far,
including the planes from initialization, the only ones sure to apply to all
beliefs.  Later queries then ran into an assertion.  Also initialize
numBackupsAtCreation when caching is off and when planes come from a file.
---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 19 +++++++++++++------
 src/pomdpBounds/MaxPlanesLowerBound.h  |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 56cbd84..ba3bf32 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -79,11 +79,15 @@ static bool dominates(const LBPlane *a, const LBPlane *b,
  * LBPLANE
  **********************************************************************/
 
-LBPlane::LBPlane(void) {}
+LBPlane::LBPlane(void) : numBackupsAtCreation(-1), isInitial(false) {}
 
 LBPlane::LBPlane(const alpha_vector &_alpha, int _action,
                  const sla::mvector &_mask)
-    : alpha(_alpha), action(_action), mask(_mask) {}
+    : alpha(_alpha),
+      action(_action),
+      mask(_mask),
+      numBackupsAtCreation(-1),
+      isInitial(false) {}
 
 void LBPlane::write(std::ostream &out, bool useMaxPlanesMasking) const {
   out << "    {" << endl;
@@ -151,9 +155,10 @@ void MaxPlanesLowerBound::initialize(double targetPrecision) {
   BlindLBInitializer blb(pomdp, this);
   blb.initialize(targetPrecision);
 
-  if (useMaxPlanesCache) {
-    // planes from initialization should have their 'age' set appropriately
-    FOR_EACH(planeP, planes) { (*planeP)->numBackupsAtCreation = 0; }
+  // planes from initialization should have their 'age' set appropriately
+  FOR_EACH(planeP, planes) {
+    (*planeP)->numBackupsAtCreation = 0;
+    (*planeP)->isInitial = true;
   }
   initialized = true;
 }
@@ -455,7 +460,9 @@ void MaxPlanesLowerBound::prunePlanes(int numBackups) {
   candidateP = planes.begin();
   while (candidateP != planes.end()) {
     LBPlane *candidate = *candidateP;
-    if (useMaxPlanesExtraPruning) {
+    // the planes from initialization are exempt: they may be the only ones that
+    // apply to a belief that has not been queried yet
+    if (useMaxPlanesExtraPruning && !candidate->isInitial) {
       if (candidate->backPointers.empty()) {
         deleteAndForward(candidate, NULL);
         candidateP = eraseElement(planes, candidateP);
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.h b/src/pomdpBounds/MaxPlanesLowerBound.h
index 11c5270..639b49e 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.h
+++ b/src/pomdpBounds/MaxPlanesLowerBound.h
@@ -48,6 +48,7 @@ struct LBPlane {
   int action;
   sla::mvector mask;
   int numBackupsAtCreation;
+  bool isInitial;
   std::list<LBPlane **> backPointers;
 
   LBPlane(void);
-- 
2.43.0


From e0e6cd1a52de198d24bad887667e0bf87bf8b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 05/75] fix: LRTDP and HDP could raise the upper bound of a
 state

---
 src/search/HDP.cc   | 7 ++++---
 src/search/LRTDP.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/search/HDP.cc b/src/search/HDP.cc
index 68677ae..272eb45 100644
--- a/src/search/HDP.cc
+++ b/src/search/HDP.cc
@@ -93,16 +93,17 @@ void HDP::cacheQ(MDPNode &cn) {
   cn.ubVal = oldUBVal;
 }
 
-// assumes correct Q values are already cached (using cacheQ)
+// assumes correct Q values are already cached (using cacheQ).  a backup
+// that would raise ubVal leaves it alone: both values are upper bounds.
 double HDP::residual(MDPNode &cn) {
   int maxUBAction = bounds->getMaxUBAction(cn);
-  return fabs(cn.ubVal - cn.Q[maxUBAction].ubVal);
+  return std::max(0.0, cn.ubVal - cn.Q[maxUBAction].ubVal);
 }
 
 void HDP::updateInternal(MDPNode &cn) {
   cacheQ(cn);
   int maxUBAction = bounds->getMaxUBAction(cn);
-  cn.ubVal = cn.Q[maxUBAction].ubVal;
+  cn.ubVal = std::min(cn.ubVal, cn.Q[maxUBAction].ubVal);
 }
 
 bool HDP::trialRecurse(MDPNode &cn, int depth) {
diff --git a/src/search/LRTDP.cc b/src/search/LRTDP.cc
index e68734f..8c636df 100644
--- a/src/search/LRTDP.cc
+++ b/src/search/LRTDP.cc
@@ -81,10 +81,11 @@ void LRTDP::cacheQ(MDPNode &cn) {
   cn.ubVal = oldUBVal;
 }
 
-// assumes correct Q values are already cached (using cacheQ)
+// assumes correct Q values are already cached (using cacheQ).  a backup
+// that would raise ubVal leaves it alone: both values are upper bounds.
 double LRTDP::residual(MDPNode &cn) {
   int maxUBAction = bounds->getMaxUBAction(cn);
-  return fabs(cn.ubVal - cn.Q[maxUBAction].ubVal);
+  return std::max(0.0, cn.ubVal - cn.Q[maxUBAction].ubVal);
 }
 
 bool LRTDP::checkSolved(MDPNode &cn) {
@@ -143,7 +144,7 @@ bool LRTDP::checkSolved(MDPNode &cn) {
 void LRTDP::updateInternal(MDPNode &cn) {
   cacheQ(cn);
   int maxUBAction = bounds->getMaxUBAction(cn);
-  cn.ubVal = cn.Q[maxUBAction].ubVal;
+  cn.ubVal = std::min(cn.ubVal, cn.Q[maxUBAction].ubVal);
 }
 
 bool LRTDP::trialRecurse(MDPNode &cn, int depth) {
-- 
2.43.0


From ea768d534bfc9352d86f8d33d52181e230b52376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 06/75] fix: zero entries of a reward matrix did not override
 earlier rewards

---
 src/parsers/imm-reward.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index fbd6af2..fd6e5bb 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -296,6 +296,12 @@ void irAddToDecisionTree(Imm_Reward_List node) {
 
     case ir_matrix:
       m = node->rep.matrix;
+      /* the sparse matrix has no entry where the reward is zero, but
+         those zeros also override what earlier lines specified */
+      dtAdd(node->action,
+            (gProblemType == POMDP_problem_type) ? node->cur_state
+                                                 : WILDCARD_SPEC,
+            WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
       for (i = 0; i < m->num_rows; i++) {
         for (j = 0; j < m->row_length[i]; j++) {
           k = m->row_start[i] + j;
-- 
2.43.0


From ee139d6eea804a7ba829b48230e3913cc748a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 07/75] fix: models with 'values: cost' were solved as if costs
 were rewards

---
 src/parsers/CassandraParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 3c99c76..800bd9a 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -86,6 +86,10 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
   kmatrix Rk;
   copy(Rk, CASSANDRA_GLOBAL(Q), p.numStates);
   kmatrix_transpose_in_place(Rk);
+  if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {
+    // the solver maximizes reward
+    FOR_EACH(entry, Rk.data) { entry->value = -entry->value; }
+  }
   copy(p.R, Rk);
 
   // convert T, Tr, and O to sla format
-- 
2.43.0


From e05947af91341071ff385e90e67baa3861760900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 08/75] fix: models without any R statement aborted

---
 src/parsers/decision-tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/decision-tree.c b/src/parsers/decision-tree.c
index 7158131..0fe57f3 100644
--- a/src/parsers/decision-tree.c
+++ b/src/parsers/decision-tree.c
@@ -342,6 +342,9 @@ double dtGet(int action, int cur_state, int next_state, int obs) {
   vec[2] = next_state;
   vec[3] = obs;
 
+  /* no reward was ever specified */
+  if (NULL == gTree) return 0.0;
+
   return dtGetInternal(gTree, vec, 0);
 }
 
-- 
2.43.0


From 87a1f54cfe3068143bdc206765176f0fb5efe8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 09/75] fix: a wildcard in a start state list wrote before the
 belief array

---
 src/parsers/pomdp_spec.y | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 367ff22..7cd966f 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1352,6 +1352,13 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
+  /* a wildcard stands for every state */
+  if (i == WILDCARD_SPEC) {
+    for (i = 0; i < gNumStates; i++)
+      enterStartState(i);
+    return;
+  }
+
   switch (curMatrixContext) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
-- 
2.43.0


From 84c9b484ffed3a6c8bd2926f0a7767085ae80a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 10/75] fix: MDP start states were not checked, nor that a
 model file is of the expected type

---
 src/parsers/CassandraParser.cc | 15 +++++++++++++++
 src/parsers/pomdp_spec.y       | 11 +++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 800bd9a..fd2f119 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -71,6 +71,21 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     exit(EXIT_FAILURE);
   }
 
+  bool isPomdp = (POMDP_problem_type == CASSANDRA_GLOBAL(gProblemType));
+  if (isPomdp != expectPomdp) {
+    cerr << "ERROR: " << p.fileName << ": expected "
+         << (expectPomdp ? "a POMDP, but there is no 'observations' statement"
+                         : "an MDP, but found an 'observations' statement")
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (!expectPomdp && INVALID_STATE == CASSANDRA_GLOBAL(gInitialState)) {
+    cerr << "ERROR: " << p.fileName
+         << ": no 'start' statement specifying the start state of the MDP"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
   p.discount = CASSANDRA_GLOBAL(gDiscount);
diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 7cd966f..698d30e 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -969,7 +969,10 @@ void enterResetMatrix() {
         for (j = 0; j < gNumStates; j++)
           addEntryToIMatrix(IP[a], i, j, gInitialBelief[j]);
 
-  else /* It is an MDP */
+  else if (gInitialState == INVALID_STATE) {
+    /* It is an MDP with no start state to return to */
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_RESET_USAGE, "");
+  } else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
         addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
@@ -1171,7 +1174,10 @@ void enterMatrix(double value) {
       gTooManyEntries = 1;
 
     else {
-      gInitialState = (int)value;
+      if ((value < 0) || (value >= gNumStates))
+        ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_STATE_VAL, "");
+      else
+        gInitialState = (int)value;
       curCol++;
     }
     break;
@@ -1512,6 +1518,7 @@ void initParser() {
   currentLineNumber = 1;
   curMnemonic = nt_unknown;
   curMatrixContext = mc_none;
+  gInitialState = INVALID_STATE;
 
 } /* initParser */
 /************************************************************************/
-- 
2.43.0


From e3ad2da8bd56f5fc49b32e85ca6a525fc66ee9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 11/75] fix: the fast parser crashed on or misread statements
 outside its subset

---
 src/parsers/FastParser.cc | 154 ++++++++++++++++++++++++--------------
 1 file changed, 97 insertions(+), 57 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index b874219..5e3e87b 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -55,6 +55,12 @@ static void trimTrailingWhiteSpace(char *s) {
   s[i + 1] = '\0';
 }
 
+// true if nothing but white space and comments is left
+static bool atEndOfLine(const char *s) {
+  while (isspace(*s)) s++;
+  return ('\0' == *s) || ('#' == *s);
+}
+
 /***************************************************************************
  * POMDP FUNCTIONS
  ***************************************************************************/
@@ -103,6 +109,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                                      bool expectPomdp) {
   char buf[1 << 20];
   int lineNumber;
+  int n;
   char sbuf[512];
   bool inPreamble = true;
 
@@ -117,12 +124,13 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   bool startSet = false;
 
   const char *rFormat =
-      (expectPomdp ? "R: %d : %d : * : * %lf" : "R: %d : %d : * %lf");
+      (expectPomdp ? "R: %d : %d : * : * %lf%n" : "R: %d : %d : * %lf%n");
 
 #define PM_PREFIX_MATCHES(X) (0 == strncmp(buf, (X), strlen(X)))
 
-  lineNumber = 1;
+  lineNumber = 0;
   while (!in.eof()) {
+    lineNumber++;
     in.getline(buf, sizeof(buf));
     if (in.fail() && !in.eof()) {
       cerr << "ERROR: " << p.fileName << ": line " << lineNumber
@@ -137,14 +145,16 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
     if (inPreamble) {
       if (PM_PREFIX_MATCHES("discount:")) {
-        if (1 != sscanf(buf, "discount: %lf", &p.discount)) {
+        if (1 != sscanf(buf, "discount: %lf%n", &p.discount, &n) ||
+            !atEndOfLine(buf + n) || !(0 <= p.discount && p.discount <= 1)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'discount' statement" << endl;
           exit(EXIT_FAILURE);
         }
         discountSet = true;
       } else if (PM_PREFIX_MATCHES("values:")) {
-        if (1 != sscanf(buf, "values: %s", sbuf)) {
+        if (1 != sscanf(buf, "values: %511s%n", sbuf, &n) ||
+            !atEndOfLine(buf + n)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'values' statement" << endl;
           exit(EXIT_FAILURE);
@@ -158,7 +168,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d", &p.numActions)) {
+        if (1 != sscanf(buf, "actions: %d%n", &p.numActions, &n) ||
+            !atEndOfLine(buf + n)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
@@ -166,7 +177,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d", &p.numObservations)) {
+          if (1 != sscanf(buf, "observations: %d%n", &p.numObservations, &n) ||
+              !atEndOfLine(buf + n)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
@@ -178,7 +190,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates)) {
+        if (1 != sscanf(buf, "states: %d%n", &p.numStates, &n) ||
+            !atEndOfLine(buf + n)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
@@ -201,6 +214,14 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber            \
          << ": at end of preamble, no '" << (NAME) << "' statement found" \
          << endl;                                                         \
+    exit(EXIT_FAILURE);                                                   \
+  }
+
+#define FP_CHECK_INDEX(VAR, LIMIT, NAME)                       \
+  if ((VAR) < 0 || (VAR) >= (LIMIT)) {                         \
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber \
+         << ": " << (NAME) << " number out of range" << endl;  \
+    exit(EXIT_FAILURE);                                        \
   }
 
         FP_CHECK_SET(discountSet, "discount");
@@ -214,6 +235,23 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           p.numObservations = -1;
         }
 
+        if (p.numStates < 1 || p.numActions < 1 ||
+            (expectPomdp && p.numObservations < 1)) {
+          cerr << "ERROR: " << p.fileName << ": numbers of states, actions and "
+               << "observations must be positive" << endl;
+          exit(EXIT_FAILURE);
+        }
+
+        unsigned int startSize =
+            expectPomdp ? p.initialBelief.size() : p.initialState.size();
+        if (static_cast<int>(startSize) != (expectPomdp ? p.numStates : 1) ||
+            (!expectPomdp && p.initialState(0) >= p.numStates)) {
+          cerr << "ERROR: " << p.fileName
+               << ": 'start' statement does not match 'states' statement"
+               << endl;
+          exit(EXIT_FAILURE);
+        }
+
         // initialize data structures
         Rx.resize(p.numStates, p.numActions);
         Tx.resize(p.numActions);
@@ -236,31 +274,44 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       if (PM_PREFIX_MATCHES("R:")) {
         int s, a;
         double reward;
-        if (3 != sscanf(buf, rFormat, &a, &s, &reward)) {
+        if (3 != sscanf(buf, rFormat, &a, &s, &reward, &n) ||
+            !atEndOfLine(buf + n) || !isfinite(reward)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in R statement\n"
-               << "  (expected format is '" << rFormat << "')" << endl;
+               << "  (expected format is '"
+               << (expectPomdp ? "R: %d : %d : * : * %lf" : "R: %d : %d : * %lf")
+               << "')" << endl;
           exit(EXIT_FAILURE);
         }
+        FP_CHECK_INDEX(a, p.numActions, "action");
+        FP_CHECK_INDEX(s, p.numStates, "state");
         kmatrix_set_entry(Rx, s, a, reward);
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob)) {
+        if (4 != sscanf(buf, "T: %d : %d : %d %lf%n", &a, &s, &sp, &prob, &n) ||
+            !atEndOfLine(buf + n) || !(0 <= prob && prob <= 1)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
         }
+        FP_CHECK_INDEX(a, p.numActions, "action");
+        FP_CHECK_INDEX(s, p.numStates, "state");
+        FP_CHECK_INDEX(sp, p.numStates, "state");
         kmatrix_set_entry(Tx[a], s, sp, prob);
       } else if (PM_PREFIX_MATCHES("O:")) {
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob)) {
+          if (4 != sscanf(buf, "O: %d : %d : %d %lf%n", &a, &s, &o, &prob, &n) ||
+              !atEndOfLine(buf + n) || !(0 <= prob && prob <= 1)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
           }
+          FP_CHECK_INDEX(a, p.numActions, "action");
+          FP_CHECK_INDEX(s, p.numStates, "state");
+          FP_CHECK_INDEX(o, p.numObservations, "observation");
           kmatrix_set_entry(Ox[a], s, o, prob);
         } else {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
@@ -273,8 +324,12 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         exit(EXIT_FAILURE);
       }
     }
+  }
 
-    lineNumber++;
+  if (inPreamble) {
+    cerr << "ERROR: " << p.fileName
+         << ": no statements found after the preamble" << endl;
+    exit(EXIT_FAILURE);
   }
 
   // post-process
@@ -362,55 +417,47 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
   if (expectPomdp) {
     // POMDP case
 
-    int i;
-    char *tok, *saveptr = NULL;
-    double val;
+    std::vector<double> vals;
+    char *tok, *endptr, *saveptr = NULL;
 
     p.initialBelief.resize(p.numStates);
 
-    // consume 'start:' token at the beginning of the statement
-    tok = strtok_r(data, " ", &saveptr);
+    // skip 'start:' token at the beginning of the statement
+    data += strlen("start:");
 
-    for (i = 0; i < p.numStates; i++) {
-      if (NULL != tok) {
-        tok = strtok_r(NULL, " ", &saveptr);
-      }
-      if (NULL == tok) {
-        if (0 == i) {
-          double startState = atof(tok);
-          if (startState != floor(startState)) {
-            cout << "ERROR: " << p.fileName
-                 << ": POMDP 'start' statement must either contain a single "
-                    "integer "
-                 << "specifying a known start state or a list of the initial "
-                    "probabilities of "
-                 << "all states" << endl;
-            exit(EXIT_FAILURE);
-          }
-          p.initialBelief.push_back(static_cast<int>(startState), 1.0);
-          return;
-        } else {
-          cout << "ERROR: " << p.fileName
-               << ": POMDP 'start' statement must either contain a single "
-                  "integer "
-               << "specifying a known start state or a list of the initial "
-                  "probabilities of "
-               << "all states" << endl;
-          exit(EXIT_FAILURE);
-        }
+    for (tok = strtok_r(data, " \t", &saveptr);
+         NULL != tok && '#' != tok[0]; tok = strtok_r(NULL, " \t", &saveptr)) {
+      vals.push_back(strtod(tok, &endptr));
+      if ('\0' != *endptr || !(vals.back() >= 0)) {
+        vals.clear();
+        break;
       }
+    }
 
-      val = atof(tok);
-      if (val > SPARSE_EPS) {
-        p.initialBelief.push_back(i, val);
+    if (static_cast<int>(vals.size()) == p.numStates) {
+      FOR(i, p.numStates) {
+        if (vals[i] > SPARSE_EPS) {
+          p.initialBelief.push_back(i, vals[i]);
+        }
       }
+    } else if (1 == vals.size() && vals[0] == floor(vals[0]) &&
+               vals[0] < p.numStates) {
+      p.initialBelief.push_back(static_cast<int>(vals[0]), 1.0);
+    } else {
+      cout << "ERROR: " << p.fileName
+           << ": POMDP 'start' statement must either contain a single "
+              "integer "
+           << "specifying a known start state or a list of the initial "
+              "probabilities of "
+           << "all states" << endl;
+      exit(EXIT_FAILURE);
     }
   } else {
     // MDP case
 
-    double x, y;
-    int ret = sscanf(data, "start: %lf %lf", &x, &y);
-    if ((ret != 1) || (x != floor(x))) {
+    int startState, n;
+    if (1 != sscanf(data, "start: %d%n", &startState, &n) ||
+        !atEndOfLine(data + n) || startState < 0) {
       cout << "ERROR: " << p.fileName
            << ": MDP 'start' statement must contain a single integer "
            << "specifying a known start state" << endl;
@@ -418,13 +465,6 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
     }
 
     p.initialState.resize(1);
-    int startState;
-    if (1 != sscanf(data, "start: %d", &startState)) {
-      cout << "ERROR: " << p.fileName
-           << ": MDP 'start' statement must contain a single integer "
-           << "specifying a known start state" << endl;
-      exit(EXIT_FAILURE);
-    }
     p.initialState.push_back(0, startState);
   }
 }
-- 
2.43.0


From 8545dd032ac30e181d41632f21b55a732db3c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 12/75] fix: reset in an MDP did not override the row's earlier
 entries

---
 src/parsers/pomdp_spec.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 698d30e..45ba91b 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -975,7 +975,8 @@ void enterResetMatrix() {
   } else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
+        for (j = 0; j < gNumStates; j++)
+          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0


From e07ae2e2e5cf8982e4dfdf36b6c03f8e8ca56f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 13/75] fix: config files lost an unterminated last line, hung
 on long lines and self-referring aliases

---
 src/common/zmdpConfig.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 806fe72..156648e 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -50,8 +50,12 @@ static bool allWhiteSpace(const char *buf) {
 static void replace_string(string &s, const string &pattern,
                            const string &replacement) {
   size_t pos;
-  while (string::npos != (pos = s.find(pattern))) {
+  size_t start = 0;
+  while (string::npos != (pos = s.find(pattern, start))) {
     s.replace(pos, pattern.size(), replacement);
+    // do not look for the pattern in its replacement, which could go on
+    // forever.  (but the next match can share the last character, a space.)
+    start = pos + replacement.size() - 1;
   }
 }
 
@@ -81,7 +85,12 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
   while (1) {
     in.getline(buf, sizeof(buf));
     lnum++;
-    if (in.eof()) break;
+    if (in.fail()) {
+      if (in.eof()) break;
+      fprintf(stderr, "ERROR: %s:%d: line too long (max length %d)\n",
+              sourceName.c_str(), lnum, static_cast<int>(sizeof(buf)) - 1);
+      exit(EXIT_FAILURE);
+    }
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
     if (0 == strncmp(buf, "alias", 5)) {
-- 
2.43.0


From fa08e7ed804d74eaf2acfad2013df51a77b55476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 14/75] fix: malformed numbers and flags in the configuration
 were silently read as 0 or truncated

---
 src/common/zmdpConfig.cc | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 156648e..594bb59 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -170,22 +171,43 @@ const std::string &ZMDPConfig::getString(const std::string &field) const {
   return ci->second;
 }
 
+static void badValue(const std::string &field, const std::string &val,
+                     const char *expected) {
+  fprintf(stderr,
+          "ERROR: invalid value '%s' for config field %s, expected %s (-h for "
+          "help)\n",
+          val.c_str(), field.c_str(), expected);
+  exit(EXIT_FAILURE);
+}
+
 int ZMDPConfig::getInt(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like an integer here
-  return atoi(s.c_str());
+  char *end;
+  errno = 0;
+  long val = strtol(s.c_str(), &end, 10);
+  if (end == s.c_str() || '\0' != *end || 0 != errno || val < INT_MIN ||
+      val > INT_MAX) {
+    badValue(field, s, "an integer");
+  }
+  return val;
 }
 
 double ZMDPConfig::getDouble(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a double here
-  return atof(s.c_str());
+  char *end;
+  double val = strtod(s.c_str(), &end);
+  if (end == s.c_str() || '\0' != *end || val != val) {
+    badValue(field, s, "a number");
+  }
+  return val;
 }
 
 bool ZMDPConfig::getBool(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a boolean value here
-  return (0 != atoi(s.c_str()));
+  if (s != "0" && s != "1") {
+    badValue(field, s, "0 or 1");
+  }
+  return (s == "1");
 }
 
 bool ZMDPConfig::defined(const std::string &field) const {
-- 
2.43.0


From fe10c438b35e1d9a7ba88bf0d947f93cd42bfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 15/75] fix: the documented value 'maxPlanes' of
 lowerBoundRepresentation was refused

---
 src/main/solverUtils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index d53cb5b..3654a5f 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -58,7 +58,11 @@ static EnumEntry modelTypeTableG[] = {{"-", -1},
                                       {NULL, -1}};
 
 static EnumEntry lowerBoundRepresentationTableG[] = {
-    {"-", -1}, {"point", V_POINT}, {"convex", V_MAXPLANES}, {NULL, -1}};
+    {"-", -1},
+    {"point", V_POINT},
+    {"maxPlanes", V_MAXPLANES},
+    {"convex", V_MAXPLANES},  // old name of maxPlanes
+    {NULL, -1}};
 
 static EnumEntry upperBoundRepresentationTableG[] = {
     {"-", -1}, {"point", V_POINT}, {"sawtooth", V_SAWTOOTH}, {NULL, -1}};
-- 
2.43.0


From 29841d7c530fd488e7c2cb684087c10abbb663ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 16/75] fix: initialization never ended when
 terminateRegretBound was not positive

---
 src/bounds/BoundPair.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bounds/BoundPair.cc b/src/bounds/BoundPair.cc
index 9423f7f..e055c98 100644
--- a/src/bounds/BoundPair.cc
+++ b/src/bounds/BoundPair.cc
@@ -35,6 +35,7 @@
 #include "zmdpCommonTime.h"
 
 #define BP_INITIALIZATION_PRECISION_FACTOR (1e-2)
+#define BP_DEFAULT_TARGET_PRECISION (1e-3)
 
 using namespace std;
 using namespace sla;
@@ -100,13 +101,17 @@ void BoundPair::initialize(MDP *_problem, const ZMDPConfig *_config) {
   config = _config;
   targetPrecision = config->getDouble("terminateRegretBound");
 
+  // the initial bounds are calculated by methods that only converge in the
+  // limit.  they need a positive precision even if the user did not ask to
+  // terminate the run at a particular regret bound.
+  double initPrecision =
+      BP_INITIALIZATION_PRECISION_FACTOR *
+      ((targetPrecision > 0) ? targetPrecision : BP_DEFAULT_TARGET_PRECISION);
   if (maintainLowerBound) {
-    lowerBound->initialize(BP_INITIALIZATION_PRECISION_FACTOR *
-                           targetPrecision);
+    lowerBound->initialize(initPrecision);
   }
   if (maintainUpperBound) {
-    upperBound->initialize(BP_INITIALIZATION_PRECISION_FACTOR *
-                           targetPrecision);
+    upperBound->initialize(initPrecision);
   }
 
   lookup = new MDPHash();
-- 
2.43.0


From 9b405e6ecfe224c2aa7d467883acfc6847f0dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 17/75] fix: zero and negative values of terminateNumBackups
 and maxHorizon were taken as limits

---
 src/main/solverUtils.cc        | 3 +++
 src/mdps/GenericDiscreteMDP.cc | 3 +++
 src/pomdpCore/Pomdp.cc         | 3 +++
 src/search/RTDPCore.cc         | 2 +-
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index 3654a5f..1971cd1 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -142,6 +142,9 @@ void SolverParams::setValues(const ZMDPConfig &config) {
   }
 
   SU_GET_INT(maxHorizon);
+  if (maxHorizon <= 0) {
+    maxHorizon = -1;  // only positive values have a meaning
+  }
   SU_GET_BOOL(useWeakUpperBoundHeuristic);
   SU_GET_ENUM(maintainLowerBound);
   useUpperBoundRunTimeActionSelection =
diff --git a/src/mdps/GenericDiscreteMDP.cc b/src/mdps/GenericDiscreteMDP.cc
index f4740c2..79ca3c9 100644
--- a/src/mdps/GenericDiscreteMDP.cc
+++ b/src/mdps/GenericDiscreteMDP.cc
@@ -60,6 +60,9 @@ GenericDiscreteMDP::GenericDiscreteMDP(const std::string &fileName,
   numStateDimensions = 1;
 
   maxHorizon = config->getInt("maxHorizon");
+  if (maxHorizon <= 0) {
+    maxHorizon = -1;  // only positive values have a meaning
+  }
 }
 
 const state_vector &GenericDiscreteMDP::getInitialState(void) {
diff --git a/src/pomdpCore/Pomdp.cc b/src/pomdpCore/Pomdp.cc
index 9996197..75d0872 100644
--- a/src/pomdpCore/Pomdp.cc
+++ b/src/pomdpCore/Pomdp.cc
@@ -54,6 +54,9 @@ Pomdp::Pomdp(const std::string &fileName, const ZMDPConfig *config) {
   }
 
   maxHorizon = config->getInt("maxHorizon");
+  if (maxHorizon <= 0) {
+    maxHorizon = -1;  // only positive values have a meaning
+  }
 
   // belief vectors are the 'state vectors' of the belief-MDP; the
   // dimensionality of these vectors is the number of states in
diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 25fa9d3..4e6e8b6 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -78,7 +78,7 @@ void RTDPCore::planInit(MDP *_problem, const ZMDPConfig *_config) {
   initialized = false;
   targetPrecision = config->getDouble("terminateRegretBound");
   terminateNumBackups = config->getInt("terminateNumBackups");
-  if (terminateNumBackups < 0) {
+  if (terminateNumBackups <= 0) {
     terminateNumBackups = INT_MAX;
   }
   bool useTimeWithoutHeuristic = config->getBool("useTimeWithoutHeuristic");
-- 
2.43.0


From 49ae452f84e0b706187b478f2527d3ba70b47dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 18/75] fix: runs stopped by terminateNumBackups claimed to
 have reached the target regret bound

---
 src/main/zmdp.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index d0fd8f7..162193c 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -116,7 +116,16 @@ void doSolve(const ZMDPConfig &config) {
   }
 
   // say why the run ended
-  if (reachedTargetPrecision) {
+  int terminateNumBackups = config.getInt("terminateNumBackups");
+  ValueInterval finalIntv =
+      so.solver->getValueAt(so.sim->getModel()->getInitialState());
+  if (reachedTargetPrecision && terminateNumBackups > 0 &&
+      so.bounds->numBackups >= terminateNumBackups &&
+      !(so.bounds->maintainLowerBound && so.bounds->maintainUpperBound &&
+        finalIntv.u - finalIntv.l < p.terminateRegretBound)) {
+    printf("%05d terminating run; reached limit of %d backups\n",
+           static_cast<int>(run.elapsedTime()), terminateNumBackups);
+  } else if (reachedTargetPrecision) {
     printf("%05d terminating run; reached target regret bound of %g\n",
            static_cast<int>(run.elapsedTime()), p.terminateRegretBound);
   } else if (reachedTimeout) {
-- 
2.43.0


From 3fb9df40ba02cd5556ecdb50e3909023345d54c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 19/75] fix: invalid policy files caused memory errors, aborts
 or endless loops

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 33 ++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index ba3bf32..92049d3 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -22,6 +22,7 @@
 #include "MaxPlanesLowerBound.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -402,7 +403,11 @@ const LBPlane &MaxPlanesLowerBound::getBestLBPlaneConst(
     }
   }
 
-  assert(NULL != ret);
+  if (NULL == ret) {
+    fprintf(stderr, "ERROR: no lower bound plane applies to belief %s\n",
+            sparseRep(b).c_str());
+    exit(EXIT_FAILURE);
+  }
   return *ret;
 }
 
@@ -629,6 +634,11 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
   while (!inFile.eof()) {
     inFile.getline(buf, sizeof(buf));
     lnum++;
+    if (inFile.fail() && !inFile.eof()) {
+      fprintf(stderr, "ERROR: %s: line %d: read error or line too long\n",
+              inFileName.c_str(), lnum);
+      exit(EXIT_FAILURE);
+    }
 
     // strip whitespace, ignore empty lines and comments
     s = stripWhiteSpace(buf);
@@ -664,11 +674,14 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
       case 1:
         /* at the start of a plane, read the action */
         if (string::npos != s.find("action") &&
-            (1 == sscanf(s.c_str(), "action => %d", &plane.action))) {
+            (1 == sscanf(s.c_str(), "action => %d", &plane.action)) &&
+            plane.action >= 0 && plane.action < pomdp->getNumActions()) {
           plane.alpha.resize(pomdp->numStates);
           parseState = 2;
         } else {
-          fprintf(stderr, "ERROR: %s: line %d: expected 'action => <int>'\n",
+          fprintf(stderr,
+                  "ERROR: %s: line %d: expected 'action => <int>' with an "
+                  "action number of the model\n",
                   inFileName.c_str(), lnum);
           exit(EXIT_FAILURE);
         }
@@ -682,13 +695,19 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
           addLBPlane(new LBPlane(plane));
           parseState = 1;
           goto parseLineAgain;
-        } else if (2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal)) {
+        } else if (2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal) &&
+                   entryIndex >= 0 && entryIndex < pomdp->numStates &&
+                   (0 == plane.alpha.filled() ||
+                    entryIndex >
+                        static_cast<int>(plane.alpha.data.back().index)) &&
+                   isfinite(entryVal)) {
           /* push another entry into the plane */
           plane.alpha.push_back(entryIndex, entryVal);
         } else {
           printf("s=[%s]\n", s.c_str());
           fprintf(stderr,
-                  "ERROR: %s: line %d: expected entry '<int>, <double>'\n",
+                  "ERROR: %s: line %d: expected entry '<int>, <double>' with "
+                  "state numbers of the model in increasing order\n",
                   inFileName.c_str(), lnum);
           exit(EXIT_FAILURE);
         }
@@ -703,6 +722,10 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
     mask_set_to_one(plane.mask, plane.alpha);
     addLBPlane(new LBPlane(plane));
   }
+  if (planes.empty()) {
+    fprintf(stderr, "ERROR: %s: no planes found\n", inFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 
   inFile.close();
 
-- 
2.43.0


From cd9e4a39b3832f7262f1e52d3d5888ef5cbab1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 20/75] fix: reading Cassandra alpha files added a spurious
 plane and accepted malformed files

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 92049d3..262eaeb 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -752,15 +752,26 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   mask_set_all(plane.mask, pomdp->numStates);
   plane.numBackupsAtCreation = -1;
 
-  while (!inFile.eof()) {
-    inFile >> plane.action;
+  bool valid = true;
+  while (valid && inFile >> plane.action) {
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
       inFile >> val;
       plane.alpha.push_back(i, val);
     }
-    addLBPlane(new LBPlane(plane));
+    valid = inFile && plane.action >= 0 &&
+            plane.action < pomdp->getNumActions();
+    if (valid) {
+      addLBPlane(new LBPlane(plane));
+    }
+  }
+  if (!valid || !inFile.eof() || planes.empty()) {
+    fprintf(stderr,
+            "ERROR: %s: expected alpha vectors for the model, each of which is "
+            "an action number followed by one value per state\n",
+            inFileName.c_str());
+    exit(EXIT_FAILURE);
   }
 
   inFile.close();
-- 
2.43.0


From fbccb2dd30370d855baf98b0112cb31c63791879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 21/75] fix: missing entries of policy planes counted as value
 0 when evaluating without useMaxPlanesMasking

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 262eaeb..fc9429d 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -624,6 +624,9 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
     exit(EXIT_FAILURE);
   }
 
+  // each plane only applies to beliefs that are covered by its entries
+  useMaxPlanesMasking = true;
+
   char buf[1024];
   std::string s;
   LBPlane plane;
-- 
2.43.0


From 7c83ca259da057d00d17655faadc469a0a14f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 22/75] fix: no backup of the previous policy was made where
 /bin/sh is not bash

---
 src/main/TestDriver.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 0549add..903cb44 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -22,6 +22,7 @@
 #include "TestDriver.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -84,8 +85,8 @@ void TestDriver::batchTestIncremental(
   string storageOutputFileName = config.getString("storageOutputFile");
   if (storageOutputFileName != "none") {
     storageOutputFile = new ofstream(storageOutputFileName.c_str());
-    if (!storageOutputFile) {
-      cerr << "ERROR: couldn't open " << storageOutputFile
+    if (!*storageOutputFile) {
+      cerr << "ERROR: couldn't open " << storageOutputFileName
            << " for writing: " << strerror(errno) << endl;
       exit(EXIT_FAILURE);
     }
@@ -152,19 +153,18 @@ void TestDriver::batchTestIncremental(
       if (NULL != outPolicyFileName) {
         // create a backup of the policy from the last epoch in case policy
         // writing is interrupted
-        string cmd = string("mv ") + outPolicyFileName + " " +
-                     outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to make policy backup");
+        string backupFileName = string(outPolicyFileName) + ".bak";
+        if (0 != rename(outPolicyFileName, backupFileName.c_str()) &&
+            ENOENT != errno) {
+          fprintf(stderr, "failed to make policy backup\n");
         }
 
         so.bounds->writePolicy(outPolicyFileName,
                                /* canModifyBounds = */ false);
 
         // delete the backup
-        cmd = string("rm -f ") + outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to delete policy backup");
+        if (0 != unlink(backupFileName.c_str()) && ENOENT != errno) {
+          fprintf(stderr, "failed to delete policy backup\n");
         }
       }
 
-- 
2.43.0


From 5c648a6628f929b6921ff40c85d2f7d88d90c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 23/75] fix: policy values were written with six digits, so
 policies read back differed

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index fc9429d..fd2aade 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -561,6 +561,9 @@ void MaxPlanesLowerBound::writeToFile(const std::string &outFileName) const {
     exit(EXIT_FAILURE);
   }
 
+  // write values precisely enough to be read back unchanged
+  out.precision(17);
+
   out << "# This file is a POMDP policy, represented as a set of \"lower "
          "bound\n"
          "# planes\", each of which consists of an alpha vector and a "
-- 
2.43.0


From 9ec3e94e52bc5860498f40cb639eaa3174f53c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 24/75] fix: backup scripts with invalid indices or long lines
 caused memory errors or endless loops

---
 src/search/StateLog.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index cd31ca8..abe70e9 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -124,6 +124,11 @@ void StateIndex::readFromFile(const std::string &inFile) {
   while (!in.eof()) {
     in.getline(buf, sizeof(buf));
     lnum++;
+    if (in.fail() && !in.eof()) {
+      fprintf(stderr, "ERROR: %s:%d: read error or line too long\n",
+              inFile.c_str(), lnum);
+      exit(EXIT_FAILURE);
+    }
 
     // strip whitespace, ignore empty lines and comments
     s = stripWhiteSpace(buf);
@@ -143,6 +148,15 @@ void StateIndex::readFromFile(const std::string &inFile) {
                 inFile.c_str(), lnum);
         exit(EXIT_FAILURE);
       }
+      if (id < 0 || id >= numStateDimensions ||
+          (accum.filled() > 0 &&
+           id <= static_cast<int>(accum.data.back().index))) {
+        fprintf(stderr,
+                "ERROR: %s:%d: indices must be increasing and less than the "
+                "number of state dimensions (%d)\n",
+                inFile.c_str(), lnum, numStateDimensions);
+        exit(EXIT_FAILURE);
+      }
       accum.push_back(id, val);
     }
   }
@@ -274,6 +288,11 @@ void StateLog::readFromFile(const std::string &inFile) {
   while (!in.eof()) {
     in.getline(buf, sizeof(buf));
     lnum++;
+    if (in.fail() && !in.eof()) {
+      fprintf(stderr, "ERROR: %s:%d: read error or line too long\n",
+              inFile.c_str(), lnum);
+      exit(EXIT_FAILURE);
+    }
 
     // strip whitespace, ignore empty lines and comments
     s = stripWhiteSpace(buf);
@@ -285,6 +304,11 @@ void StateLog::readFromFile(const std::string &inFile) {
               inFile.c_str(), lnum);
       exit(EXIT_FAILURE);
     }
+    if (id < 0 || id >= static_cast<int>(index->entries.size())) {
+      fprintf(stderr, "ERROR: %s:%d: there is no state %d in the state index\n",
+              inFile.c_str(), lnum, id);
+      exit(EXIT_FAILURE);
+    }
     entries.push_back(id);
   }
 
-- 
2.43.0


From 026297845566cf75858565a2452509ee07efede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 25/75] fix: state keys were wrong for empty vectors and
 overflowed for large values

---
 src/common/MatrixUtils.h    | 43 ++++++++++++-------------------------
 src/common/slaMatrixUtils.h |  2 --
 2 files changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index c2dfd2a..82bef42 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -189,39 +189,24 @@ inline int chooseFromDistribution(const cvector &b) {
   return 0;
 }
 
-inline const char *hashable(const dvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
-
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
-  }
+inline void addHashEntry(std::string &result, int index, double value) {
+  char entry[512];  // the longest double takes about 320 characters
+  snprintf(entry, sizeof(entry), HASH_VECTOR_PRECISION, index, value);
+  result += entry;
+}
 
-  char *pos = buf;
-  FOR(i, b.size()) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, i, b(i));
-  }
-  return buf;
+inline const char *hashable(const dvector &b) {
+  static std::string buf;
+  buf.clear();
+  FOR(i, b.size()) { addHashEntry(buf, i, b(i)); }
+  return buf.c_str();
 }
 
 inline const char *hashable(const cvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
-
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
-  }
-
-  char *pos = buf;
-  FOR_CV(b) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, CV_INDEX(b),
-                    CV_VAL(b));
-  }
-  return buf;
+  static std::string buf;
+  buf.clear();
+  FOR_CV(b) { addHashEntry(buf, CV_INDEX(b), CV_VAL(b)); }
+  return buf.c_str();
 }
 
 // Calculates the average and standard deviation for a collection.
diff --git a/src/common/slaMatrixUtils.h b/src/common/slaMatrixUtils.h
index f281787..250775f 100644
--- a/src/common/slaMatrixUtils.h
+++ b/src/common/slaMatrixUtils.h
@@ -40,11 +40,9 @@
 
 // FIX adjusting this based on observed bounds violations
 #define HASH_VECTOR_PRECISION "%6d:%15.9lf "
-#define HASH_VECTOR_LEN (24)
 
 #if 0
 #define HASH_VECTOR_PRECISION "%5d:%6.4lf "
-#define HASH_VECTOR_LEN (14)
 #endif
 
 // convenience macros for iterating through compressed matrices and vectors
-- 
2.43.0


From c63f8a4fbbdaa85d2f145c37ca46c745f472c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 26/75] fix: random draws could return impossible outcomes or
 an index out of range

---
 src/bounds/BoundPairCore.cc |  6 ++----
 src/common/MatrixUtils.h    | 15 +++++++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/bounds/BoundPairCore.cc b/src/bounds/BoundPairCore.cc
index 9fcf7e0..e7adf3c 100644
--- a/src/bounds/BoundPairCore.cc
+++ b/src/bounds/BoundPairCore.cc
@@ -67,11 +67,9 @@ int BoundPairCore::getSimulatedOutcome(MDPNode &cn, int a) {
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
+      result = o;  // never choose an impossible outcome
       r -= e->obsProb;
-      if (r <= 0) {
-        result = o;
-        break;
-      }
+      if (r <= 0) break;
     }
   }
 
diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index 82bef42..de3bfa4 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -159,7 +159,10 @@ inline int argmax_elt(const cvector &v) {
 // Chooses an outcome according to the distribution.
 inline int chooseFromDistribution(const dvector &b) {
   double r = unit_rand();
+  int result = 0;
   FOR(i, b.size()) {
+    if (b(i) <= 0) continue;  // never choose an impossible outcome
+    result = i;
     r -= b(i);
     if (r <= 0) return i;
   }
@@ -170,14 +173,17 @@ inline int chooseFromDistribution(const dvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return result;
 }
 
 inline int chooseFromDistribution(const cvector &b) {
   double r = unit_rand();
+  int result = 0;
   FOR_CV(b) {
+    if (CV_VAL(b) <= 0) continue;  // never choose an impossible outcome
+    result = CV_INDEX(b);
     r -= CV_VAL(b);
-    if (r <= 0) return CV_INDEX(b);
+    if (r <= 0) return result;
   }
   if (r >= 1e-10) {
     // should never reach this point if b is normalized properly
@@ -186,7 +192,7 @@ inline int chooseFromDistribution(const cvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return result;
 }
 
 inline void addHashEntry(std::string &result, int index, double value) {
@@ -261,7 +267,8 @@ inline void calc_bootstrap_mean_quantile(const dvector &vals, double alpha,
   for (int i = 0; i < numBootstrapSamples; i++) {
     sum = 0.0;
     for (int j = 0; j < n; j++) {
-      int k = static_cast<int>(unit_rand() * n);
+      // unit_rand() can return 1
+      int k = std::min(static_cast<int>(unit_rand() * n), n - 1);
       sum += vals(k);
     }
     bvals(i) = sum / n;
-- 
2.43.0


From 05f952ad641dc4c7ca2a8d82a1ece2717ad2c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 27/75] fix: runs on models with rounded probabilities aborted
 when drawing outcomes

---
 src/parsers/CassandraParser.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index fd2f119..2ac3f17 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -22,6 +22,7 @@
 #include "CassandraParser.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <sys/time.h>
@@ -29,6 +30,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <vector>
 
 #include "MatrixUtils.h"
 #include "slaMatrixUtils.h"
@@ -53,6 +55,19 @@ void CassandraParser::readPomdpFromFile(CassandraModel &pomdp,
   readModelFromFile(pomdp, /* expectPomdp = */ true);
 }
 
+// The parser accepts probability distributions whose sum is not exactly 1
+// because their values were rounded.  The solver and the simulation rely on
+// distributions being normalized.
+static double getScale(double sum) {
+  return (fabs(sum - 1.0) > SPARSE_EPS) ? (1.0 / sum) : 1.0;
+}
+
+static void normalizeRows(kmatrix &A) {
+  std::vector<double> sums(A.size1(), 0.0);
+  FOR_EACH(entry, A.data) { sums[entry->r] += entry->value; }
+  FOR_EACH(entry, A.data) { entry->value *= getScale(sums[entry->r]); }
+}
+
 // This macro is a pure pass-through. I just use it to make clear
 // that the argument is a global variable declared in Tony Cassandra's
 // code base.
@@ -116,11 +131,15 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
   }
   FOR(a, p.numActions) {
     copy(Tk, CASSANDRA_GLOBAL(P[a]), p.numStates);
+    normalizeRows(Tk);
     copy(p.T[a], Tk);
     kmatrix_transpose_in_place(Tk);
     copy(p.Ttr[a], Tk);
     if (expectPomdp) {
-      copy(p.O[a], CASSANDRA_GLOBAL(::R[a]), p.numObservations);
+      kmatrix Ok;
+      copy(Ok, CASSANDRA_GLOBAL(::R[a]), p.numObservations);
+      normalizeRows(Ok);
+      copy(p.O[a], Ok);
     }
   }
 
@@ -131,6 +150,7 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     FOR(s, p.numStates) {
       initialBeliefD(s) = CASSANDRA_GLOBAL(gInitialBelief[s]);
     }
+    initialBeliefD *= getScale(sum(initialBeliefD));
     copy(p.initialBelief, initialBeliefD);
   } else {
     // convert initialState to sla format
-- 
2.43.0


From e75ec3fe7fd285024d3dacae0ebf7643355d3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 28/75] fix: products of non-square sparse matrices and vectors
 got the wrong size

---
 src/common/sla.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/sla.h b/src/common/sla.h
index 676163d..29b39c4 100644
--- a/src/common/sla.h
+++ b/src/common/sla.h
@@ -701,7 +701,7 @@ inline void mult(dvector &result, const cmatrix &A, const cvector &x) {
   int xind;
   double xval;
 
-  result.resize(x.size());
+  result.resize(A.size1());
 
   FOR_EACH(xi, x.data) {
     xind = xi->index;
@@ -729,19 +729,19 @@ inline void mult(cvector &result, const cmatrix &A, const cvector &x) {
     cvector tmp;
     cvector accum;
 
-    accum.resize(x.size());
+    accum.resize(A.size1());
     FOR_EACH(xi, x.data) {
       xind = xi->index;
       xval = xi->value;
       col_end = A.data.begin() + A.col_starts[xind + 1];
-      tmp.resize(x.size());
+      tmp.resize(A.size1());
       for (Ai = A.data.begin() + A.col_starts[xind]; Ai != col_end; Ai++) {
         tmp.push_back(Ai->index, xval * Ai->value);
       }
       accum += tmp;
     }
 
-    result.resize(x.size());
+    result.resize(A.size1());
     FOR_EACH(ai, accum.data) {
       if (fabs(ai->value) > SPARSE_EPS) {
         result.data.push_back(*ai);
-- 
2.43.0


From 38a6364c3dc316331bb96dbed2313055fbf92b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 29/75] fix: racers could leave maps that are not enclosed by
 closed cells

---
 src/mdps/RaceTrack.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index b72b42a..c6cdfc9 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -130,8 +130,17 @@ struct TrackMap {
 
   TrackMap(void);
   ~TrackMap(void);
-  bool getIsOpen(int x, int y) const { return open[width * y + x]; }
-  bool getIsFinish(int x, int y) const { return finish[width * y + x]; }
+  // cells outside the map are closed
+  bool getIsInside(int x, int y) const {
+    return 0 <= x && x < static_cast<int>(width) && 0 <= y &&
+           y < static_cast<int>(height);
+  }
+  bool getIsOpen(int x, int y) const {
+    return getIsInside(x, y) && open[width * y + x];
+  }
+  bool getIsFinish(int x, int y) const {
+    return getIsInside(x, y) && finish[width * y + x];
+  }
   int lineType(int x0, int y0, int dx, int dy) const;
   void readFromFile(const std::string &mapFileName, FILE *mapFile, int lnum);
 };
@@ -205,6 +214,8 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
   width = 0;
   while (NULL != fgets(lbuf, sizeof(lbuf), mapFile)) {
     lnum++;
+    // the end of the line is not a cell
+    lbuf[strcspn(lbuf, "\n")] = '\0';
     if (0 == strlen(lbuf)) continue;
     if ('#' == lbuf[0]) continue;
     if (0 == width) {
-- 
2.43.0


From e7cf20ad002194130c6d69d69fb9a7c456888b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 30/75] fix: invalid racetrack files crashed the run or were
 silently misread

---
 src/mdps/RaceTrack.cc | 51 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index c6cdfc9..e7354d7 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <float.h>
 #include <getopt.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -71,6 +72,8 @@ struct PropertyList {
   PropertyList(void);
   void setValue(const string &key, const string &value);
   const string &getValue(const string &key) const;
+  double getNumber(const string &key, double min, double max) const;
+  bool getFlag(const string &key) const;
   void readFromFile(const string &fname, char endMarker);
 };
 
@@ -90,6 +93,30 @@ const string &PropertyList::getValue(const string &key) const {
   return p->second;
 }
 
+double PropertyList::getNumber(const string &key, double min,
+                               double max) const {
+  const string &value = getValue(key);
+  char *end;
+  double result = strtod(value.c_str(), &end);
+  if (end == value.c_str() || '\0' != *end ||
+      !(min <= result && result <= max)) {
+    fprintf(stderr, "ERROR: spec file parameter %s has invalid value %s\n",
+            key.c_str(), value.c_str());
+    exit(EXIT_FAILURE);
+  }
+  return result;
+}
+
+bool PropertyList::getFlag(const string &key) const {
+  const string &value = getValue(key);
+  if ("0" != value && "1" != value) {
+    fprintf(stderr, "ERROR: spec file parameter %s must be 0 or 1\n",
+            key.c_str());
+    exit(EXIT_FAILURE);
+  }
+  return "1" == value;
+}
+
 void PropertyList::readFromFile(const string &fname, char endMarker) {
   inFile = fopen(fname.c_str(), "r");
   if (NULL == inFile) {
@@ -209,7 +236,7 @@ int TrackMap::lineType(int x0, int y0, int dx, int dy) const {
 void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
                             int lnum) {
   char lbuf[1024];
-  char data[1024 * 1024];
+  std::string data;
   unsigned int i = 0;
   width = 0;
   while (NULL != fgets(lbuf, sizeof(lbuf), mapFile)) {
@@ -229,10 +256,13 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
         exit(EXIT_FAILURE);
       }
     }
-    assert(i + width < sizeof(data));
-    memcpy(&data[i], lbuf, width);
+    data += lbuf;
     i += width;
   }
+  if (0 == width) {
+    fprintf(stderr, "ERROR: %s: no map found\n", mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
   height = i / width;
 
   unsigned int numPixels = width * height;
@@ -247,6 +277,11 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
       startY.push_back(i / width);
     }
   }
+  if (startX.empty()) {
+    fprintf(stderr, "ERROR: %s: the map has no start cell ('s')\n",
+            mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 }
 
 /**********************************************************************
@@ -409,15 +444,15 @@ void RaceTrack::readFromFile(const std::string &specFileName) {
 
   PropertyList plist;
   plist.readFromFile(specFileName, /* endMarker = */ '-');
-  discount = atof(plist.getValue("discount").c_str());
-  errorProbability = atof(plist.getValue("errorProbability").c_str());
-  useMaxCost = atoi(plist.getValue("useMaxCost").c_str());
+  discount = plist.getNumber("discount", 0, 1);
+  errorProbability = plist.getNumber("errorProbability", 0, 1);
+  useMaxCost = plist.getFlag("useMaxCost");
   if (useMaxCost) {
-    maxCost = atof(plist.getValue("maxCost").c_str());
+    maxCost = plist.getNumber("maxCost", 0, DBL_MAX);
   } else {
     maxCost = -1;  // n/a
   }
-  useErrorIsWind = atoi(plist.getValue("useErrorIsWind").c_str());
+  useErrorIsWind = plist.getFlag("useErrorIsWind");
 
   tmap = new TrackMap();
   tmap->readFromFile(specFileName, plist.inFile, plist.lnum);
-- 
2.43.0


From 857d47298a6873d3cd65fda7afffdf4d1ff5b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 31/75] fix: HSVI and FRTDP aborted on models with discount 0

---
 src/search/FRTDP.cc | 6 +++++-
 src/search/HSVI.cc  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/search/FRTDP.cc b/src/search/FRTDP.cc
index b75a5ec..4d4b82b 100644
--- a/src/search/FRTDP.cc
+++ b/src/search/FRTDP.cc
@@ -154,8 +154,12 @@ void FRTDP::trialRecurse(MDPNode &cn, double logOcc, int depth) {
     return;
   }
 
+  if (-1 == r.maxPrioOutcome) {
+    // no outcome matters (e.g., if discount is 0)
+    return;
+  }
+
   // recurse to successor
-  assert(-1 != r.maxPrioOutcome);
   double obsProb = cn.Q[r.maxUBAction].outcomes[r.maxPrioOutcome]->obsProb;
   double weight = problem->getDiscount() * obsProb;
   double nextLogOcc = logOcc + log(weight);
diff --git a/src/search/HSVI.cc b/src/search/HSVI.cc
index 85d9ac9..57b5ac4 100644
--- a/src/search/HSVI.cc
+++ b/src/search/HSVI.cc
@@ -122,8 +122,12 @@ void HSVI::trialRecurse(MDPNode &cn, double logOcc, int depth) {
     printf("  trialRecurse: s=%s\n", sparseRep(cn.s).c_str());
   }
 
+  if (-1 == r.maxExcessUncOutcome) {
+    // no outcome matters (e.g., if discount is 0)
+    return;
+  }
+
   // recurse to successor
-  assert(-1 != r.maxExcessUncOutcome);
   double obsProb = cn.Q[r.maxUBAction].outcomes[r.maxExcessUncOutcome]->obsProb;
   double weight = problem->getDiscount() * obsProb;
   double nextLogOcc = logOcc + log(weight);
-- 
2.43.0


From b72ad40cd3cbd0ecd9db598727a0b60f51371b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 32/75] fix: HSVI aborted on undiscounted racetracks without
 maxCost

---
 src/mdps/RaceTrack.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index e7354d7..d0f820b 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -292,7 +292,15 @@ struct RTLowerBound : public AbstractBound {
   RaceTrack *problem;
 
   explicit RTLowerBound(RaceTrack *_problem) : problem(_problem) {}
-  void initialize(double targetPrecision) {}
+  void initialize(double targetPrecision) {
+    if (!problem->useMaxCost && problem->discount >= 1.0) {
+      fprintf(stderr,
+              "ERROR: the racetrack is undiscounted and no maxCost was "
+              "specified; the solver\n"
+              "       cannot generate an initial lower bound\n");
+      exit(EXIT_FAILURE);
+    }
+  }
   double getValue(const state_vector &s, const MDPNode *cn) const;
 };
 
-- 
2.43.0


From 84e6f7c0819f50a388c6961063da197ea76a70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 33/75] fix: evaluate reused actions chosen for other planner
 states when planner and simulation models differ

---
 src/exec/PolicyEvaluator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 83ffa45..a257f11 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -135,7 +135,9 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
 void PolicyEvaluator::doBatch(dvector &rewards, double &successRate,
                               int numTrials, int numTracesToLog) {
-  if (useEvaluationCache) {
+  // caching the policy is only valid if the state of the executive is that of
+  // the simulator
+  if (useEvaluationCache && assumeIdenticalModels) {
     doBatchCache(rewards, successRate, numTrials, numTracesToLog);
   } else {
     doBatchSimple(rewards, successRate, numTrials, numTracesToLog);
-- 
2.43.0


From 6e957c011c29b634aad327422d1b9114ee3adfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 34/75] fix: evaluationTrialsPerEpoch 0 and negative
 evaluationMaxStepsPerTrial were not handled

---
 src/exec/PolicyEvaluator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index a257f11..07934bb 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -66,6 +66,10 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
+  if (evaluationTrialsPerEpoch <= 0) {
+    fprintf(stderr, "ERROR: evaluationTrialsPerEpoch must be positive\n");
+    exit(EXIT_FAILURE);
+  }
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
   scoresOutputFile = config->getString("scoresOutputFile");
   simulationTraceOutputFile = config->getString("simulationTraceOutputFile");
@@ -192,7 +196,7 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
     CMDPNode *simState = modelCache->root;
     CMDPQEntry *Qa = NULL;
     for (int j = 0;
-         (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
+         (j < evaluationMaxStepsPerTrial) || (evaluationMaxStepsPerTrial <= 0);
          j++) {
       int a;
       if (-1 == simState->userInt) {
@@ -330,7 +334,7 @@ void PolicyEvaluator::doBatchSimple(dvector &rewards, double &successRate,
     sim->restart();
     exec->setToInitialState();
     for (int j = 0;
-         (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
+         (j < evaluationMaxStepsPerTrial) || (evaluationMaxStepsPerTrial <= 0);
          j++) {
       int a = exec->chooseAction();
       sim->performAction(a);
-- 
2.43.0


From 62d847707d5442c2c3553c506efdea67a0475c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 35/75] fix: fewer trials than requested were run, and the
 scores file lacked their scores when caching

---
 src/exec/PolicyEvaluator.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 07934bb..9577f29 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -97,19 +97,21 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   // parameter 30 is arbitrary, trying to guarantee valid statistics
   int numBatches = std::min(evaluationTrialsPerEpoch, 30);
-  int numTrialsPerBatch = evaluationTrialsPerEpoch / numBatches;
-
   rewards.resize(numBatches);
   double successRateSum = 0.0;
   int startTrialIndex = 0;
   for (int i = 0; i < numBatches; i++) {
     dvector batchRewards;
     double batchSuccessRate;
+    // distribute the trials as evenly as possible
+    int endTrialIndex = static_cast<int>(
+        static_cast<int64_t>(i + 1) * evaluationTrialsPerEpoch / numBatches);
+    int numTrialsPerBatch = endTrialIndex - startTrialIndex;
     doBatch(batchRewards, batchSuccessRate, numTrialsPerBatch,
             std::max(0, simulationTracesToLogPerEpoch - startTrialIndex));
     rewards(i) = sum(batchRewards) / numTrialsPerBatch;
-    successRateSum += batchSuccessRate;
-    startTrialIndex += numTrialsPerBatch;
+    successRateSum += batchSuccessRate * numTrialsPerBatch;
+    startTrialIndex = endTrialIndex;
   }
   printf("\n");
 
@@ -119,7 +121,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   }
   printf("\n");
 
-  successRate = successRateSum / numBatches;
+  successRate = successRateSum / evaluationTrialsPerEpoch;
 
   // cleanup
 #define DELETE_AND_NULL(x) \
@@ -293,7 +295,6 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
 
   // pass 3: go back through logs and perform reweighting
   rewards.resize(numTrials);
-  double batchSumReward = 0.0;
   for (int i = 0; i < numTrials; i++) {
     double rewardSoFar = 0.0;
     for (int j = trials[i].size() - 1; j >= 0; j--) {
@@ -305,12 +306,12 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
                     reweight * modelCache->getDiscount() * rewardSoFar;
     }
     rewards(i) = rewardSoFar;
-
-    batchSumReward += rewardSoFar;
   }
 
   if (verbose) {
-    (*scoresOutFile) << batchSumReward / numTrials << endl;
+    for (int i = 0; i < numTrials; i++) {
+      (*scoresOutFile) << rewards(i) << endl;
+    }
   }
 
   successRate = (static_cast<double>(numTrialsReachedGoal)) / numTrials;
-- 
2.43.0


From 3944ed94e6b88a88d596ffe077dd005f4420ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 36/75] fix: evaluation with the cache underrated rare outcomes

---
 src/exec/PolicyEvaluator.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 9577f29..2d68d9c 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -260,12 +260,14 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
       CMDPQEntry *Qa = cn->Q[a];
       if (NULL != Qa) {
         double probSum = 0.0;
+        double minProb = 1.0;
         double cntSum = 0;
         for (int o = 0; o < static_cast<int>(Qa->getNumOutcomes()); o++) {
           CMDPEdge *e = Qa->outcomes[o];
           if (NULL != e) {
             if (-1 != e->userInt) {
               probSum += Qa->opv(o);
+              minProb = std::min(minProb, Qa->opv(o));
               cntSum += e->userInt;
             }
           }
@@ -277,7 +279,11 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
           CMDPEdge *e = Qa->outcomes[o];
           if (NULL != e) {
             if (-1 != e->userInt) {
-              if (probSum == 1.0) {
+              // reweighting whenever all outcomes happen to have been seen
+              // would underrate rare outcomes, which have weight 0 in the
+              // other batches.  so it is restricted to transitions for which
+              // seeing all outcomes is all but certain.
+              if (probSum == 1.0 && minProb * cntSum >= 10) {
                 e->userDouble = Qa->opv(o) / (e->userInt / cntSum);
               } else {
                 e->userDouble = 1.0;
-- 
2.43.0


From fcea423568b73af6be6872ca0f5996e81849e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 37/75] fix: policy evaluation leaked memory and did not report
 unwritable scores files

---
 src/exec/PolicyEvaluator.cc | 6 ++++--
 src/mdps/CacheMDP.h         | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 2d68d9c..f406215 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -88,7 +88,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   if (verbose) {
     scoresOutFile = new ofstream(scoresOutputFile.c_str());
-    if (!scoresOutFile) {
+    if (!(*scoresOutFile)) {
       fprintf(stderr, "ERROR: couldn't open %s for writing: %s\n",
               scoresOutputFile.c_str(), strerror(errno));
       exit(EXIT_FAILURE);
@@ -325,7 +325,9 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
 
 void PolicyEvaluator::doBatchSimple(dvector &rewards, double &successRate,
                                     int numTrials, int numTracesToLog) {
-  sim = new MDPSim(simModel);
+  if (NULL == sim) {
+    sim = new MDPSim(simModel);
+  }
 
   sim->simOutFile = simOutFile;
 
diff --git a/src/mdps/CacheMDP.h b/src/mdps/CacheMDP.h
index f047a82..9f6aad9 100644
--- a/src/mdps/CacheMDP.h
+++ b/src/mdps/CacheMDP.h
@@ -42,6 +42,9 @@ struct CMDPQEntry {
   outcome_prob_vector opv;
   std::vector<CMDPEdge *> outcomes;
 
+  ~CMDPQEntry(void) {
+    FOR_EACH(e, outcomes) { delete (*e); }
+  }
   size_t getNumOutcomes(void) const { return outcomes.size(); }
 };
 
-- 
2.43.0


From 9834ac6026076bb39098e1f0445dd60864ad8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 38/75] fix: evaluate crashed on observations that are
 impossible in the planner's model

---
 src/exec/BoundPairExec.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exec/BoundPairExec.cc b/src/exec/BoundPairExec.cc
index 6307959..54b09ff 100644
--- a/src/exec/BoundPairExec.cc
+++ b/src/exec/BoundPairExec.cc
@@ -106,6 +106,13 @@ int BoundPairExec::chooseAction(void) {
 void BoundPairExec::advanceToNextState(int a, int o) {
   state_vector nextState;
   mdp->getNextState(nextState, currentState, a, o);
+  if (0 == nextState.filled()) {
+    fprintf(stderr,
+            "ERROR: BoundPairExec: observation %d after action %d is "
+            "impossible according to the planner's model\n",
+            o, a);
+    exit(EXIT_FAILURE);
+  }
   currentState = nextState;
 }
 
-- 
2.43.0


From 621e4158801f296e8f0f267a47d190e54fb27b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 39/75] fix: documented requirements among the maxPlanes
 options were not enforced, which led to crashes

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index fd2aade..5108ea5 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -141,6 +141,19 @@ MaxPlanesLowerBound::MaxPlanesLowerBound(const MDP *_pomdp,
   useMaxPlanesCache = config->getBool("useMaxPlanesCache");
   useMaxPlanesExtraPruning = config->getBool("useMaxPlanesExtraPruning");
 
+  if (useMaxPlanesSupportList && !useMaxPlanesMasking) {
+    fprintf(stderr,
+            "ERROR: useMaxPlanesSupportList=1 requires useMaxPlanesMasking=1 "
+            "(-h for help)\n");
+    exit(EXIT_FAILURE);
+  }
+  if (useMaxPlanesExtraPruning && !useMaxPlanesCache) {
+    fprintf(stderr,
+            "ERROR: useMaxPlanesExtraPruning=1 requires useMaxPlanesCache=1 "
+            "(-h for help)\n");
+    exit(EXIT_FAILURE);
+  }
+
   if (useMaxPlanesSupportList) {
     supportList.resize(pomdp->getBeliefSize());
   }
-- 
2.43.0


From 1d19b9d3881df802493fe7e09e772f2d02ff5703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 40/75] fix: LifeSurvey state names included uninitialized
 memory

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index 64f2dcd..e7c8ef7 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -68,6 +68,7 @@ std::string LSState::toString(void) const {
       snprintf(eltbuf, sizeof(eltbuf), "%1d", rewardLevelInRegion[i]);
       rbuf[i] = eltbuf[0];
     }
+    rbuf[rewardLevelInRegion.size()] = '\0';
     snprintf(buf, sizeof(buf), "sx%dy%dd%du%dn%d%d%dr%s", pos.x, pos.y,
              lastMoveDirection, usedLookaheadInThisCell, lifeInNeighborCell[0],
              lifeInNeighborCell[1], lifeInNeighborCell[2], rbuf);
-- 
2.43.0


From 99abc47a2e3009aa7e0c2bdc561d4e9917536410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 41/75] fix: the null observation of LifeSurvey was converted
 to the number of another observation

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index e7c8ef7..b2fe7b0 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -156,7 +156,7 @@ LSObservation::LSObservation(int oi) {
 
 int LSObservation::toInt(void) const {
   if (isNull) {
-    return 0;
+    return OBS_NULL;
   } else {
     return lifeInNeighborConfidence[2] +
            LS_BASE_NUM_OBSERVATIONS *
-- 
2.43.0


From 2de9f3e5150bb8ff457ffc265900730f37596663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 42/75] fix: LifeSurvey files lost an unterminated last line,
 lookaheadCost when written, and bad start cells went unnoticed

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index b6df89d..e84c334 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -283,7 +283,7 @@ preambleDone:
         exit(EXIT_FAILURE);
       }
     }
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate trailing newline
+    lbuf[strcspn(lbuf, "\n")] = '\0';  // truncate trailing newline
     rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
   }
 
@@ -331,12 +331,19 @@ preambleDone:
             static_cast<char>((n - 1) + 97), n);
     exit(EXIT_FAILURE);
   }
+
+  if (LS_OBSTACLE == grid.getCellBounded(LSPos(startX, startY))) {
+    fprintf(stderr, "ERROR: %s: the start cell (%d,%d) is not a map cell\n",
+            fname.c_str(), startX, startY);
+    exit(EXIT_FAILURE);
+  }
 }
 
 void LSModelFile::writeToFile(FILE *outFile) const {
   fprintf(outFile, "startX %d\n", startX);
   fprintf(outFile, "startY %d\n", startY);
   fprintf(outFile, "baseCost %lf\n", baseCost);
+  fprintf(outFile, "lookaheadCost %lf\n", lookaheadCost);
   writeDoubleVectorToFile(outFile, "regionPriors", regionPriors);
   writeDoubleVectorToFile(outFile, "obsDistributionLifeAbsent",
                           obsDistributionLifeAbsent);
-- 
2.43.0


From 4b8641aa24165c1a2d0b7a8906efb7a45327d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 43/75] fix: evaluate crashed on observations that are
 impossible in the planner's model, unless the trial ends with them

---
 src/exec/BoundPairExec.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/exec/BoundPairExec.cc b/src/exec/BoundPairExec.cc
index 54b09ff..060943a 100644
--- a/src/exec/BoundPairExec.cc
+++ b/src/exec/BoundPairExec.cc
@@ -100,19 +100,18 @@ void BoundPairExec::setToInitialState(void) {
 }
 
 int BoundPairExec::chooseAction(void) {
+  if (0 == currentState.filled()) {
+    fprintf(stderr,
+            "ERROR: BoundPairExec: can't choose an action after an observation "
+            "that is impossible according to the planner's model\n");
+    exit(EXIT_FAILURE);
+  }
   return bounds->chooseAction(currentState);
 }
 
 void BoundPairExec::advanceToNextState(int a, int o) {
   state_vector nextState;
   mdp->getNextState(nextState, currentState, a, o);
-  if (0 == nextState.filled()) {
-    fprintf(stderr,
-            "ERROR: BoundPairExec: observation %d after action %d is "
-            "impossible according to the planner's model\n",
-            o, a);
-    exit(EXIT_FAILURE);
-  }
   currentState = nextState;
 }
 
-- 
2.43.0


From 5cabca3766861ced1bac153fe71bfd38a99b0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 44/75] fix: trials without depth limit exhausted the stack

---
 src/search/FRTDP.cc   | 2 +-
 src/search/HSVI.cc    | 2 +-
 src/search/LRTDP.cc   | 4 ++++
 src/search/RTDP.cc    | 4 ++++
 src/search/RTDPCore.h | 2 ++
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/search/FRTDP.cc b/src/search/FRTDP.cc
index 4d4b82b..8816480 100644
--- a/src/search/FRTDP.cc
+++ b/src/search/FRTDP.cc
@@ -144,7 +144,7 @@ void FRTDP::trialRecurse(MDPNode &cn, double logOcc, int depth) {
     oldNumUpdates++;
   }
 
-  if (excessWidth <= 0 || depth > maxDepth) {
+  if (excessWidth <= 0 || depth > maxDepth || depth >= RT_MAX_TRIAL_DEPTH) {
     if (zmdpDebugLevelG >= 1) {
       printf("  trialRecurse: depth=%d excessWidth=%g (terminating)\n", depth,
              excessWidth);
diff --git a/src/search/HSVI.cc b/src/search/HSVI.cc
index 57b5ac4..c567143 100644
--- a/src/search/HSVI.cc
+++ b/src/search/HSVI.cc
@@ -87,7 +87,7 @@ void HSVI::trialRecurse(MDPNode &cn, double logOcc, int depth) {
   double excessUnc = cn.ubVal - cn.lbVal -
                      trialTargetPrecision * pow(problem->getDiscount(), -depth);
 
-  if (excessUnc <= 0
+  if (excessUnc <= 0 || depth >= RT_MAX_TRIAL_DEPTH
 #if USE_HSVI_ADAPTIVE_DEPTH
       || depth > maxDepth
 #endif
diff --git a/src/search/LRTDP.cc b/src/search/LRTDP.cc
index 8c636df..67bbb4c 100644
--- a/src/search/LRTDP.cc
+++ b/src/search/LRTDP.cc
@@ -170,6 +170,10 @@ bool LRTDP::trialRecurse(MDPNode &cn, int depth) {
     printf("  trialRecurse: s=%s\n", sparseRep(cn.s).c_str());
   }
 
+  if (depth >= RT_MAX_TRIAL_DEPTH) {
+    return false;
+  }
+
   // recurse to successor
   bool solvedAtNextDepth =
       trialRecurse(cn.getNextState(maxUBAction, simulatedOutcome), depth + 1);
diff --git a/src/search/RTDP.cc b/src/search/RTDP.cc
index 07756f3..1f13507 100644
--- a/src/search/RTDP.cc
+++ b/src/search/RTDP.cc
@@ -81,6 +81,10 @@ void RTDP::trialRecurse(MDPNode &cn, int depth) {
     printf("  trialRecurse: s=%s\n", sparseRep(cn.s).c_str());
   }
 
+  if (depth >= RT_MAX_TRIAL_DEPTH) {
+    return;
+  }
+
   // recurse to successor
   trialRecurse(cn.getNextState(maxUBAction, simulatedOutcome), depth + 1);
 
diff --git a/src/search/RTDPCore.h b/src/search/RTDPCore.h
index fbb8864..1c7b499 100644
--- a/src/search/RTDPCore.h
+++ b/src/search/RTDPCore.h
@@ -33,6 +33,8 @@
 #define RT_IDX_PLUS_INFINITY (INT_MAX)
 #define RT_PRIO_MINUS_INFINITY (-99e+20)
 #define RT_PRIO_IMPROVEMENT_CONSTANT (0.5)
+// trials are cut off at this depth so that recursion can't exhaust the stack
+#define RT_MAX_TRIAL_DEPTH (10000)
 
 namespace zmdp {
 
-- 
2.43.0


From 3cb6dec1e6dbcc8c94a9ac9e12f359c6561c5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 45/75] fix: solve did not stop at the target regret bound with
 search strategies that leave the check to the caller

---
 src/main/zmdp.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index 162193c..f12a013 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -96,6 +96,15 @@ void doSolve(const ZMDPConfig &config) {
                                  /* maxTime = */ -1, p.terminateRegretBound);
     numSolverCalls++;
 
+    // some search strategies do not check the regret bound themselves
+    if (so.bounds->maintainLowerBound && so.bounds->maintainUpperBound) {
+      ValueInterval intv =
+          so.solver->getValueAt(so.sim->getModel()->getInitialState());
+      if (intv.u - intv.l < p.terminateRegretBound) {
+        reachedTargetPrecision = true;
+      }
+    }
+
     // check timeout
     double elapsed = run.elapsedTime();
     if (elapsed >= p.terminateWallclockSeconds) {
-- 
2.43.0


From 15145c5c7a3eb3feca5d6aa64a6fa933e8eeff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 46/75] fix: runs ended by a converged upper bound claimed to
 have reached the target regret bound

---
 src/main/zmdp.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index f12a013..c886195 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -128,12 +128,18 @@ void doSolve(const ZMDPConfig &config) {
   int terminateNumBackups = config.getInt("terminateNumBackups");
   ValueInterval finalIntv =
       so.solver->getValueAt(so.sim->getModel()->getInitialState());
+  bool bothBounds =
+      so.bounds->maintainLowerBound && so.bounds->maintainUpperBound;
+  bool regretIsBounded =
+      bothBounds && finalIntv.u - finalIntv.l < p.terminateRegretBound;
   if (reachedTargetPrecision && terminateNumBackups > 0 &&
-      so.bounds->numBackups >= terminateNumBackups &&
-      !(so.bounds->maintainLowerBound && so.bounds->maintainUpperBound &&
-        finalIntv.u - finalIntv.l < p.terminateRegretBound)) {
+      so.bounds->numBackups >= terminateNumBackups && !regretIsBounded) {
     printf("%05d terminating run; reached limit of %d backups\n",
            static_cast<int>(run.elapsedTime()), terminateNumBackups);
+  } else if (reachedTargetPrecision && bothBounds && !regretIsBounded) {
+    // lrtdp and hdp only consider the upper bound
+    printf("%05d terminating run; upper bound converged to precision %g\n",
+           static_cast<int>(run.elapsedTime()), p.terminateRegretBound);
   } else if (reachedTargetPrecision) {
     printf("%05d terminating run; reached target regret bound of %g\n",
            static_cast<int>(run.elapsedTime()), p.terminateRegretBound);
-- 
2.43.0


From 581895dcfb160cc09b806f0b0771bcd71477c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 47/75] fix: the elapsed time was used uninitialized when the
 heuristic's time is included

---
 src/search/RTDPCore.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 4e6e8b6..f015d82 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -44,7 +44,9 @@ using namespace MatrixUtils;
 
 namespace zmdp {
 
-RTDPCore::RTDPCore(void) : boundsFile(NULL), initialized(false) {}
+RTDPCore::RTDPCore(void) : boundsFile(NULL), initialized(false) {
+  previousElapsedTime = secondsToTimeval(0.0);
+}
 
 void RTDPCore::setBounds(BoundPairCore *_bounds) { bounds = _bounds; }
 
-- 
2.43.0


From 8932cc98cfc59b5f1685665b29ed521931350025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 48/75] fix: beliefs after unlikely observations lost small
 entries, down to an empty belief and a crash

---
 src/pomdpCore/Pomdp.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pomdpCore/Pomdp.cc b/src/pomdpCore/Pomdp.cc
index 75d0872..aadc218 100644
--- a/src/pomdpCore/Pomdp.cc
+++ b/src/pomdpCore/Pomdp.cc
@@ -83,13 +83,18 @@ obs_prob_vector &Pomdp::getObsProbVector(obs_prob_vector &result,
 belief_vector &Pomdp::getNextBelief(belief_vector &result,
                                     const belief_vector &b, int a,
                                     int o) const {
-  belief_vector tmp;
+  // the products are kept in dense vectors until they are normalized:
+  // sparse vectors drop small entries, and when o is unlikely all of
+  // the entries are small before the normalization
+  dvector tmp, joint;
 
-  // result = O_a(:,o) .* (T_a * b)
+  // joint = O_a(:,o) .* (T_a * b)
   mult(tmp, Ttr[a], b);
-  emult_column(result, O[a], o, tmp);
+  emult_column(joint, O[a], o, tmp);
 
-  // renormalize
+  // normalize
+  joint *= (1.0 / sum(joint));
+  copy(result, joint);
   result *= (1.0 / sum(result));
 
   return result;
-- 
2.43.0


From a6b9ca802f73e0d66c780df07fa87dc254c25fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 49/75] fix: bound values logged by the script strategy used
 other state ids than the state index

---
 src/search/RTDPCore.cc        | 8 +++++---
 src/search/RTDPCore.h         | 4 +++-
 src/search/ScriptedUpdater.cc | 4 +++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index f015d82..e14954b 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -151,10 +151,9 @@ void RTDPCore::trackBackup(const MDPNode &backedUpNode) {
   }
 }
 
-void RTDPCore::maybeLogBackups(void) {
+void RTDPCore::maybeLogBackups(StateIndex &index) {
   if (!useLogBackups && qValuesOutputFile == "none") return;
 
-  StateIndex index(problem->getNumStateDimensions());
   StateLog log(&index);
   FOR_EACH(node, backedUpNodes) { log.addState((*node)->s); }
   if (qValuesOutputFile != "none") {
@@ -175,6 +174,9 @@ void RTDPCore::maybeLogBackups(void) {
   }
 }
 
-void RTDPCore::finishLogging(void) { maybeLogBackups(); }
+void RTDPCore::finishLogging(void) {
+  StateIndex index(problem->getNumStateDimensions());
+  maybeLogBackups(index);
+}
 
 };  // namespace zmdp
diff --git a/src/search/RTDPCore.h b/src/search/RTDPCore.h
index 1c7b499..ded7675 100644
--- a/src/search/RTDPCore.h
+++ b/src/search/RTDPCore.h
@@ -38,6 +38,8 @@
 
 namespace zmdp {
 
+struct StateIndex;
+
 // data structure used by LRTDP and HDP: stack with O(1) element existence check
 struct NodeStack {
   std::stack<MDPNode *> data;
@@ -102,7 +104,7 @@ struct RTDPCore : public Solver {
   void setBoundsFile(std::ostream *boundsFile);
   ValueInterval getValueAt(const state_vector &s) const;
   void trackBackup(const MDPNode &backedUpNode);
-  void maybeLogBackups(void);
+  void maybeLogBackups(StateIndex &index);
   void finishLogging(void);
 };
 
diff --git a/src/search/ScriptedUpdater.cc b/src/search/ScriptedUpdater.cc
index 0ba7f71..f208617 100644
--- a/src/search/ScriptedUpdater.cc
+++ b/src/search/ScriptedUpdater.cc
@@ -100,7 +100,9 @@ bool ScriptedUpdater::doTrial(MDPNode &cn) {
 }
 
 void ScriptedUpdater::finishLogging(void) {
-  maybeLogBackups();
+  // the logs continue the index that was read, so that the ids mean the
+  // same in all of them
+  maybeLogBackups(*stateIndex);
   stateIndex->writeBoundValuesToFile(boundValuesOutputFile, *bounds);
 }
 
-- 
2.43.0


From 262b0ca153a3d56bba36cf45e86bc808cf3e82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 50/75] fix: refuse a customMDPNumStates that is not positive

With no goal state in the chain the initial bounds came out with the lower
bound above the upper bound, and the run reported success.
---
 src/mdps/CustomMDP.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdps/CustomMDP.cc b/src/mdps/CustomMDP.cc
index 07c7f92..9d46156 100644
--- a/src/mdps/CustomMDP.cc
+++ b/src/mdps/CustomMDP.cc
@@ -74,6 +74,10 @@ CustomMDP::CustomMDP(const ZMDPConfig &config) {
   // parameters; e.g. getString(), getDouble(), getBool().  See
   // src/common/zmdpConfig.h for the detailed interface.
   myNumStates = config.getInt("customMDPNumStates");
+  if (myNumStates < 1) {
+    fprintf(stderr, "ERROR: customMDPNumStates must be positive\n");
+    exit(EXIT_FAILURE);
+  }
 
   // -----------------------------------------------------------------
   // The member variables *above* this point are not used outside the
-- 
2.43.0


From ea9fcbfaa5ab030087f6e9a041ee96bab1a9cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 51/75] fix: do not use stdio in the SIGINT handler

A signal that arrived while a progress line was being printed corrupted the
output: text was lost and buffered lines were written twice.
---
 src/main/zmdp.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index c886195..59ce76e 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -16,9 +16,11 @@
  ***************************************************************************/
 
 #include <assert.h>
+#include <errno.h>
 #include <getopt.h>
 #include <signal.h>
 #include <sys/time.h>
+#include <unistd.h>
 
 #include <fstream>
 #include <iostream>
@@ -41,16 +43,22 @@ using namespace zmdp;
 
 enum CommandsEnum { CMD_SOLVE, CMD_BENCHMARK, CMD_EVALUATE };
 
-bool userTerminatedG = false;
+volatile sig_atomic_t userTerminatedG = 0;
 
 void sigIntHandler(int sig) {
-  userTerminatedG = true;
+  userTerminatedG = 1;
 
-  printf(
+  // the signal may have interrupted an operation on stdout, so stdio cannot
+  // be used here (and stdout may hold part of a line)
+  static const char msg[] =
       "*** received SIGINT, user pressed control-C ***\n"
       "terminating run and writing output policy as soon as the solver "
-      "returns control\n");
-  fflush(stdout);
+      "returns control\n";
+  int savedErrno = errno;
+  if (write(STDERR_FILENO, msg, sizeof(msg) - 1) < 0) {
+    // nothing can be done about it here
+  }
+  errno = savedErrno;
 }
 
 void setSignalHandler(int sig, void (*handler)(int)) {
-- 
2.43.0


From 7e9b3192736c6adf4b0a1d0ecaedbfec45a9f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 52/75] fix: count regions correctly while planning LifeSurvey
 paths

A region with exactly 9 forward cells was taken as already accounted for,
so its value was lost and a worse path could be chosen.
---
 src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
index 4fb7cd3..68b13fa 100644
--- a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
+++ b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
@@ -40,6 +40,9 @@ using namespace MatrixUtils;
 using namespace sla;
 
 #define LS_NUM_PATHS_TO_EVALUATE (1000000)
+/* marks regions that were already folded into unreachableRegionValue; must
+   differ from every possible count */
+#define LS_COUNT_FOLDED (-1)
 #define LS_ABS(x) (((x) < 0) ? -(x) : (x))
 
 namespace zmdp {
@@ -283,12 +286,12 @@ void LSPathAndReactExec::getBestExtension(LSPath &bestPathMatchingPrefix,
   // (all regions are considered unreachable if we are at the exit)
   bool atExit = f.grid.getAtExit(entry.pos);
   FOR(r, f.regionPriors.size()) {
-    if (LS_UNREACHABLE != nextValueSoFar.regionCounts[r]) {
+    if (LS_COUNT_FOLDED != nextValueSoFar.regionCounts[r]) {
       if (atExit || !m.regionReachable[r].getCell(entry.pos)) {
         double probLifeIsSampledInRegion =
             1 - pow(1 - f.regionPriors[r], nextValueSoFar.regionCounts[r]);
         nextValueSoFar.unreachableRegionValue += probLifeIsSampledInRegion;
-        nextValueSoFar.regionCounts[r] = LS_UNREACHABLE;
+        nextValueSoFar.regionCounts[r] = LS_COUNT_FOLDED;
       }
     }
   }
-- 
2.43.0


From f749b0e27b5991db7768e0451b2bef5638b3564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 53/75] fix: accept trailing white space and an unterminated
 one-character last row in LifeSurvey files

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index e84c334..85b5e62 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -52,7 +52,10 @@ static void convertToDoubleVector(std::vector<double> &result,
   while (1) {
     p2 = s.find_first_of(" \t", p1);
     if (string::npos == p2) {
-      result.push_back(atof(s.substr(p1).c_str()));
+      /* nothing is left to read if s ends with white space */
+      if (p1 < s.size()) {
+        result.push_back(atof(s.substr(p1).c_str()));
+      }
       break;
     } else {
       if (p1 != p2) {
@@ -272,16 +275,11 @@ preambleDone:
   std::vector<std::string> rows;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
-    if (strlen(lbuf) <= 1) {
-      if (feof(modelFile)) {
-        break;
-      } else {
-        fprintf(
-            stderr,
-            "ERROR: %s: line %d: found unexpected zero-length line in map\n",
-            fname.c_str(), lnum);
-        exit(EXIT_FAILURE);
-      }
+    if ('\n' == lbuf[0]) {
+      fprintf(stderr,
+              "ERROR: %s: line %d: found unexpected zero-length line in map\n",
+              fname.c_str(), lnum);
+      exit(EXIT_FAILURE);
     }
     lbuf[strcspn(lbuf, "\n")] = '\0';  // truncate trailing newline
     rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
-- 
2.43.0


From 400de581d8f5ff03292f6b4d588807e37f01027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 54/75] fix: calcLSTrialStats aborted on an action out of range
 in the trace file

---
 src/pomdpModels/lifeSurvey/calcLSTrialStats.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc b/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
index 07b217f..1849018 100644
--- a/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
+++ b/src/pomdpModels/lifeSurvey/calcLSTrialStats.cc
@@ -64,6 +64,11 @@ void readTrace(std::vector<TraceEntry> &result, const char *fname) {
               fname, lnum);
       exit(EXIT_FAILURE);
     }
+    if (e.a < 0 || e.a >= LS_NUM_ACTIONS) {
+      fprintf(stderr, "%s:%d: ERROR: action must be in the range 0 .. %d\n",
+              fname, lnum, LS_NUM_ACTIONS - 1);
+      exit(EXIT_FAILURE);
+    }
     result.push_back(e);
   }
   fclose(f);
-- 
2.43.0


From a22eb440426b656cbe74619db639f745388c1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 55/75] fix: evaluating a LifeSurvey policy on another model
 aborted with an assertion

---
 src/main/zmdp.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index 59ce76e..98e4a24 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -266,6 +266,13 @@ void doEvaluate(const ZMDPConfig &config) {
             plannerModelFileName, simModelFileName);
         exit(EXIT_FAILURE);
       }
+    } else if (simPomdp->getNumActions() != LS_NUM_ACTIONS ||
+               simPomdp->getNumObservations() != LS_NUM_OBSERVATIONS) {
+      fprintf(stderr,
+              "ERROR: policy type '%s' requires a LifeSurvey model, and %s is "
+              "not one\n",
+              policyType.c_str(), simModelFileName);
+      exit(EXIT_FAILURE);
     }
   }
   if (zmdpDebugLevelG >= 1) {
-- 
2.43.0


From 8c9cc8db5ea690c6eaea6ca180706e6f188b6a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 56/75] fix: replaying a state index with vectors that are not
 states of the model crashed

---
 src/common/MDPModel.h          |  5 +++++
 src/mdps/CustomMDP.cc          | 10 ++++++++++
 src/mdps/CustomMDP.h           |  2 ++
 src/mdps/GenericDiscreteMDP.cc |  5 +++++
 src/mdps/GenericDiscreteMDP.h  |  2 ++
 src/mdps/RaceTrack.cc          | 12 ++++++++++++
 src/mdps/RaceTrack.h           |  2 ++
 src/pomdpCore/Pomdp.cc         | 10 ++++++++++
 src/pomdpCore/Pomdp.h          |  2 ++
 src/search/ScriptedUpdater.cc  |  7 +++++++
 10 files changed, 57 insertions(+)

diff --git a/src/common/MDPModel.h b/src/common/MDPModel.h
index 83a52ea..12ca9b8 100644
--- a/src/common/MDPModel.h
+++ b/src/common/MDPModel.h
@@ -54,6 +54,11 @@ struct MDP {
   // returns true if state is terminal
   virtual bool getIsTerminalState(const state_vector &s) = 0;
 
+  // returns false if s is not a state of the model, so that the other
+  // functions must not be called with it (for checking states that were
+  // read from a file)
+  virtual bool getIsValidState(const state_vector &s) { return true; }
+
   // sets result to be the vector of outcome probabilities when from
   // state s action a is selected
   virtual outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &result,
diff --git a/src/mdps/CustomMDP.cc b/src/mdps/CustomMDP.cc
index 9d46156..e4d373a 100644
--- a/src/mdps/CustomMDP.cc
+++ b/src/mdps/CustomMDP.cc
@@ -130,6 +130,16 @@ bool CustomMDP::getIsTerminalState(const state_vector &s) {
   return (x == (myNumStates - 1));
 }
 
+bool CustomMDP::getIsValidState(const state_vector &s) {
+  // USER CUSTOMIZE
+
+  // getIsValidState(s) returns true iff s is a state of the model.
+
+  // In the example problem, x is an integer in the range 0 .. n-1.
+  double x = s(0);
+  return 0 <= x && x < myNumStates && x == static_cast<int>(x);
+}
+
 outcome_prob_vector &CustomMDP::getOutcomeProbVector(
     outcome_prob_vector &result, const state_vector &s, int a) {
   // USER CUSTOMIZE
diff --git a/src/mdps/CustomMDP.h b/src/mdps/CustomMDP.h
index 06ea99c..35fd750 100644
--- a/src/mdps/CustomMDP.h
+++ b/src/mdps/CustomMDP.h
@@ -39,6 +39,8 @@ struct CustomMDP : public MDP {
 
   const state_vector &getInitialState(void);
   bool getIsTerminalState(const state_vector &s);
+
+  bool getIsValidState(const state_vector &s);
   outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &result,
                                             const state_vector &s, int a);
   state_vector &getNextState(state_vector &result, const state_vector &s, int a,
diff --git a/src/mdps/GenericDiscreteMDP.cc b/src/mdps/GenericDiscreteMDP.cc
index 79ca3c9..9404cf1 100644
--- a/src/mdps/GenericDiscreteMDP.cc
+++ b/src/mdps/GenericDiscreteMDP.cc
@@ -74,6 +74,11 @@ bool GenericDiscreteMDP::getIsTerminalState(const state_vector &sv) {
   return isTerminalState[s];
 }
 
+bool GenericDiscreteMDP::getIsValidState(const state_vector &sv) {
+  double s = sv(0);
+  return 0 <= s && s < numStates && s == static_cast<int>(s);
+}
+
 outcome_prob_vector &GenericDiscreteMDP::getOutcomeProbVector(
     outcome_prob_vector &result, const state_vector &sv, int a) {
   int s = static_cast<int>(sv(0));
diff --git a/src/mdps/GenericDiscreteMDP.h b/src/mdps/GenericDiscreteMDP.h
index 26ce2ce..76ffeaf 100644
--- a/src/mdps/GenericDiscreteMDP.h
+++ b/src/mdps/GenericDiscreteMDP.h
@@ -45,6 +45,8 @@ struct GenericDiscreteMDP : public CassandraModel {
   // POMDP-as-belief-MDP implementations for virtual functions declared in MDP
   const state_vector &getInitialState(void);
   bool getIsTerminalState(const state_vector &s);
+
+  bool getIsValidState(const state_vector &s);
   outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &result,
                                             const state_vector &b, int a);
   state_vector &getNextState(state_vector &result, const state_vector &s, int a,
diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index d0f820b..df5a9f5 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -476,6 +476,18 @@ bool RaceTrack::getIsTerminalState(const state_vector &s) {
   return isTerminal;
 }
 
+bool RaceTrack::getIsValidState(const state_vector &s) {
+  if (IS_INITIAL_STATE(s) || IS_TERMINAL_STATE(s)) return true;
+  double maxSpeed = tmap->width + tmap->height;
+  FOR(i, 4) {
+    if (!(-maxSpeed <= s(i) && s(i) <= maxSpeed) ||
+        s(i) != static_cast<int>(s(i))) {
+      return false;
+    }
+  }
+  return tmap->getIsOpen(static_cast<int>(s(0)), static_cast<int>(s(1)));
+}
+
 outcome_prob_vector &RaceTrack::getOutcomeProbVector(
     outcome_prob_vector &result, const state_vector &s, int a) {
   if (IS_INITIAL_STATE(s)) {
diff --git a/src/mdps/RaceTrack.h b/src/mdps/RaceTrack.h
index 590acbd..01a797d 100644
--- a/src/mdps/RaceTrack.h
+++ b/src/mdps/RaceTrack.h
@@ -50,6 +50,8 @@ class RaceTrack : public MDP {
   // returns true if state is terminal
   bool getIsTerminalState(const state_vector &s);
 
+  bool getIsValidState(const state_vector &s);
+
   // sets result to be the vector of outcome probabilities when from
   // state s action a is selected
   outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &result,
diff --git a/src/pomdpCore/Pomdp.cc b/src/pomdpCore/Pomdp.cc
index aadc218..0a7b930 100644
--- a/src/pomdpCore/Pomdp.cc
+++ b/src/pomdpCore/Pomdp.cc
@@ -22,6 +22,7 @@
 #include "Pomdp.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <sys/time.h>
@@ -122,4 +123,13 @@ bool Pomdp::getIsTerminalState(const state_vector &s) {
   return (nonTerminalSum < 1e-10);
 }
 
+bool Pomdp::getIsValidState(const state_vector &s) {
+  double sum = 0.0;
+  FOR_CV(s) {
+    if (!(CV_VAL(s) >= 0)) return false;
+    sum += CV_VAL(s);
+  }
+  return fabs(sum - 1) < 1e-6;
+}
+
 };  // namespace zmdp
diff --git a/src/pomdpCore/Pomdp.h b/src/pomdpCore/Pomdp.h
index 810d3cf..5ec19e9 100644
--- a/src/pomdpCore/Pomdp.h
+++ b/src/pomdpCore/Pomdp.h
@@ -62,6 +62,8 @@ struct Pomdp : public CassandraModel {
   // POMDP-as-belief-MDP implementations for virtual functions declared in MDP
   const state_vector &getInitialState(void) { return getInitialBelief(); }
   bool getIsTerminalState(const state_vector &s);
+
+  bool getIsValidState(const state_vector &s);
   outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &result,
                                             const state_vector &b, int a) {
     return getObsProbVector(result, b, a);
diff --git a/src/search/ScriptedUpdater.cc b/src/search/ScriptedUpdater.cc
index f208617..90f4189 100644
--- a/src/search/ScriptedUpdater.cc
+++ b/src/search/ScriptedUpdater.cc
@@ -55,6 +55,13 @@ void ScriptedUpdater::readFiles(void) {
 
   stateIndex = new StateIndex(problem->getNumStateDimensions());
   stateIndex->readFromFile(stateIndexInputFile);
+  FOR(i, stateIndex->entries.size()) {
+    if (!problem->getIsValidState(*stateIndex->entries[i])) {
+      fprintf(stderr, "ERROR: %s: state %d is not a state of the model\n",
+              stateIndexInputFile.c_str(), static_cast<int>(i));
+      exit(EXIT_FAILURE);
+    }
+  }
 
   backupsLog = new StateLog(stateIndex);
   backupsLog->readFromFile(backupsInputFile);
-- 
2.43.0


From 2682cbe4579ded635a797c3f15eee8a110f601c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 57/75] fix: with a tiny discount the relaxation heuristic
 recursed without end

---
 src/bounds/RelaxUBInitializer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bounds/RelaxUBInitializer.cc b/src/bounds/RelaxUBInitializer.cc
index ae87f73..610f02d 100644
--- a/src/bounds/RelaxUBInitializer.cc
+++ b/src/bounds/RelaxUBInitializer.cc
@@ -161,7 +161,9 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   // the alternative (it would never make progress).
   double weight = pow(problem->getDiscount(), depth);
   double actionPrio = costSoFar + weight * cn.ubVal;
-  if (altActionPrio > actionPrio + RELAX_PRIO_EPS) {
+  // what cannot change the value of the root noticeably is not explored.
+  if (altActionPrio > actionPrio + RELAX_PRIO_EPS ||
+      weight * (cn.ubVal - cn.lbVal) < RELAX_PRIO_EPS) {
     if (zmdpDebugLevelG >= 1) {
       printf(
           "  RB trialRecurse: depth=%d [%g .. %g] costSoFar=%g "
-- 
2.43.0


From a4e953c228d0f30aaba032af361a5f67641a0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 58/75] fix: a racetrack whose finish cannot be reached hung
 the solver

---
 src/bounds/RelaxUBInitializer.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bounds/RelaxUBInitializer.cc b/src/bounds/RelaxUBInitializer.cc
index 610f02d..1e8d8ab 100644
--- a/src/bounds/RelaxUBInitializer.cc
+++ b/src/bounds/RelaxUBInitializer.cc
@@ -238,6 +238,15 @@ void RelaxUBInitializer::initialize(double targetPrecision) {
       }
       break;
     }
+    double initLB = initLowerBound->getValue(root->s, NULL);
+    if (root->ubVal < initLB - RELAX_PRIO_EPS * (1 + fabs(initLB))) {
+      fprintf(stderr,
+              "ERROR: the upper bound fell below the initial lower bound of %g:\n"
+              "       the goal cannot be reached, or the maxCost of the problem "
+              "is too small\n",
+              initLB);
+      exit(EXIT_FAILURE);
+    }
     doTrial(*root, width * problem->getDiscount());
     trialNum++;
   }
-- 
2.43.0


From bc235c7b870dec1dd42f118365a963ce267cc2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 59/75] fix: the largest possible maxHorizon overflowed in the
 lower bound initialisation

---
 src/pomdpBounds/BlindLBInitializer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpBounds/BlindLBInitializer.cc b/src/pomdpBounds/BlindLBInitializer.cc
index 492b09e..9e70b92 100644
--- a/src/pomdpBounds/BlindLBInitializer.cc
+++ b/src/pomdpBounds/BlindLBInitializer.cc
@@ -72,7 +72,7 @@ void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha) {
   if (pomdp->getDiscount() < 1.0) {
     if (pomdp->maxHorizon != -1) {
       longTermFactor =
-          (1.0 - pow(pomdp->getDiscount(), pomdp->maxHorizon + 1)) /
+          (1.0 - pow(pomdp->getDiscount(), pomdp->maxHorizon + 1.0)) /
           (1.0 - pomdp->getDiscount());
     } else {
       longTermFactor = 1.0 / (1.0 - pomdp->getDiscount());
-- 
2.43.0


From 06a9c79e49af8ced2e212fbee5f9c4144f45f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 60/75] fix: the same overflow for MDPs with the largest
 maxHorizon

---
 src/mdps/GenericDiscreteMDP.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdps/GenericDiscreteMDP.cc b/src/mdps/GenericDiscreteMDP.cc
index 9404cf1..27c91d9 100644
--- a/src/mdps/GenericDiscreteMDP.cc
+++ b/src/mdps/GenericDiscreteMDP.cc
@@ -128,7 +128,7 @@ double GenericDiscreteMDP::getLongTermFactor(void) {
   if (getDiscount() < 1.0) {
     if (maxHorizon != -1) {
       longTermFactor =
-          (1.0 - pow(getDiscount(), maxHorizon + 1)) / (1.0 - getDiscount());
+          (1.0 - pow(getDiscount(), maxHorizon + 1.0)) / (1.0 - getDiscount());
     } else {
       longTermFactor = 1.0 / (1.0 - getDiscount());
     }
-- 
2.43.0


From f6f4f2aef665fecf37be39e7b584b74cc450b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 61/75] fix: times in the bounds log could run backwards when a
 pause fell between two clock readings

---
 src/search/RTDPCore.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index e14954b..466b1fe 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -114,9 +114,9 @@ bool RTDPCore::planFixedTime(const state_vector &s, double maxTimeSeconds,
   previousElapsedTime = getTime() - boundsStartTime;
 
   if (NULL != boundsFile) {
-    double elapsed = timevalToSeconds(getTime() - boundsStartTime);
+    double elapsed = timevalToSeconds(previousElapsedTime);
     if (done || (0 == lastPrintTime) || elapsed / lastPrintTime >= (1 + 1e-4)) {
-      (*boundsFile) << timevalToSeconds(getTime() - boundsStartTime) << " "
+      (*boundsFile) << elapsed << " "
                     << bounds->getRootNode()->lbVal << " "
                     << bounds->getRootNode()->ubVal << " "
                     << bounds->numStatesTouched << " "
-- 
2.43.0


From 14eaca9ca0464c554a89d1179d53dda0f75fd1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 62/75] fix: the simulator's transition table left out outcomes
 that can still be drawn

---
 src/mdps/CacheMDP.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdps/CacheMDP.cc b/src/mdps/CacheMDP.cc
index e81ee92..f939358 100644
--- a/src/mdps/CacheMDP.cc
+++ b/src/mdps/CacheMDP.cc
@@ -141,7 +141,7 @@ CMDPQEntry *CacheMDP::getQ(CMDPNode &cn, int a) {
     problem->getOutcomeProbVector(Qa.opv, cn.s, a);
     Qa.outcomes.resize(Qa.opv.size(), NULL);
     FOR(o, Qa.opv.size()) {
-      if (Qa.opv(o) > OBS_IS_ZERO_EPS) {
+      if (Qa.opv(o) > 0) {
         CMDPEdge *e = new CMDPEdge;
         state_vector sp;
         problem->getNextState(sp, cn.s, a, o);
-- 
2.43.0


From 35c65d0dc84e24b01db6178eed638903049790fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 63/75] fix: a policy that could not be written completely went
 unnoticed

---
 src/common/zmdpCommonDefs.h            | 16 ++++++++++++++++
 src/pomdpBounds/MaxPlanesLowerBound.cc |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/common/zmdpCommonDefs.h b/src/common/zmdpCommonDefs.h
index 281aa7f..dfc85d6 100644
--- a/src/common/zmdpCommonDefs.h
+++ b/src/common/zmdpCommonDefs.h
@@ -18,6 +18,12 @@
 #ifndef ZMDP_SRC_COMMON_ZMDPCOMMONDEFS_H_
 #define ZMDP_SRC_COMMON_ZMDPCOMMONDEFS_H_
 
+#include <stdio.h>
+#include <stdlib.h>
+
+#include <fstream>
+#include <string>
+
 namespace zmdp {
 
 #undef FOR_EACH
@@ -71,6 +77,16 @@ _ForwardIterator eraseElement(_CollectionType &c, _ForwardIterator i) {
   return ip1;
 }
 
+// Closes an output file.  Exits with an error message if any of the output
+// could not be written.
+inline void closeOutputFile(std::ofstream &out, const std::string &fileName) {
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't finish writing %s\n", fileName.c_str());
+    exit(EXIT_FAILURE);
+  }
+}
+
 }  // namespace zmdp
 
 #endif  // ZMDP_SRC_COMMON_ZMDPCOMMONDEFS_H_
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 5108ea5..694ce63 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -629,7 +629,7 @@ void MaxPlanesLowerBound::writeToFile(const std::string &outFileName) const {
   out << "  ]" << endl;
   out << "}" << endl;
 
-  out.close();
+  closeOutputFile(out, outFileName);
 }
 
 void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
-- 
2.43.0


From 0d5c816dc2f78a7e43cab6af77b98a029ba24f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 64/75] fix: state, bound and backup logs that could not be
 written completely went unnoticed

---
 src/search/StateLog.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index abe70e9..ade200b 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -98,6 +98,8 @@ void StateIndex::writeToFile(const std::string &outFile) const {
     }
   }
 
+  closeOutputFile(out, outFile);
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote index of %d states to %s\n", static_cast<int>(entries.size()),
            outFile.c_str());
@@ -199,6 +201,8 @@ void StateIndex::writeBoundValuesToFile(const std::string &outFile,
         << intv.u << endl;
   }
 
+  closeOutputFile(out, outFile);
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote bound values for %d states to %s\n",
            static_cast<int>(entries.size()), outFile.c_str());
@@ -235,6 +239,8 @@ void StateIndex::writeQValuesToFile(const std::string &outFile,
     }
   }
 
+  closeOutputFile(out, outFile);
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote bound values for %d states to %s\n",
            static_cast<int>(entries.size()), outFile.c_str());
@@ -265,6 +271,8 @@ void StateLog::writeToFile(const std::string &outFile) const {
 
   FOR_EACH(e, entries) { out << (*e) << endl; }
 
+  closeOutputFile(out, outFile);
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote log of %d backups to %s\n", static_cast<int>(entries.size()),
            outFile.c_str());
-- 
2.43.0


From 8e128c35e980b51c84c15fb2c6a13ce106628eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 65/75] fix: benchmark results that could not be written
 completely went unnoticed

---
 src/main/TestDriver.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 903cb44..ec7c163 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -237,14 +237,14 @@ void TestDriver::batchTestIncremental(
       }
     }
   }
-  incPlotFile.close();
-  boundsFile.close();
-  simOutFile.close();
+  so.solver->finishLogging();
+
+  closeOutputFile(incPlotFile, incPlotFileName);
+  closeOutputFile(boundsFile, boundsFileName);
+  closeOutputFile(simOutFile, simFileName);
   if (storageOutputFile) {
-    storageOutputFile->close();
+    closeOutputFile(*storageOutputFile, storageOutputFileName);
   }
-
-  so.solver->finishLogging();
 }
 
 };  // namespace zmdp
-- 
2.43.0


From fe57410283d09b0feb783e393aa8ef27a3e60739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 66/75] fix: traces and scores that could not be written
 completely went unnoticed

---
 src/exec/PolicyEvaluator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index f406215..4d0b1aa 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -130,6 +130,10 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
     (x) = NULL;            \
   }
 
+  closeOutputFile(*simOutFile, simulationTraceOutputFile);
+  if (NULL != scoresOutFile) {
+    closeOutputFile(*scoresOutFile, scoresOutputFile);
+  }
   DELETE_AND_NULL(simOutFile);
   DELETE_AND_NULL(scoresOutFile);
   DELETE_AND_NULL(sim);
-- 
2.43.0


From 59e77d8f113d265a0603e955a07ab590d8488b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 67/75] fix: --genConfig reported success when the file could
 not be written completely

---
 src/common/embedFiles.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/embedFiles.h b/src/common/embedFiles.h
index 5b69244..5525e5f 100644
--- a/src/common/embedFiles.h
+++ b/src/common/embedFiles.h
@@ -48,7 +48,11 @@ inline void embedWriteToFile(const char *fileName, const embed_buffer_t &buf) {
     exit(EXIT_FAILURE);
   }
   fwrite(buf.data, 1, buf.size, outFile);
-  fclose(outFile);
+  bool failed = (0 != ferror(outFile));
+  if (0 != fclose(outFile) || failed) {
+    fprintf(stderr, "ERROR: couldn't finish writing %s\n", fileName);
+    exit(EXIT_FAILURE);
+  }
 }
 
 #endif  // ZMDP_SRC_COMMON_EMBEDFILES_H_
-- 
2.43.0


From 19eda5c7414b0b27f4340713fa09ba0fe97350ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 68/75] fix: gen_LifeSurvey and dumpMap reported success when
 the file could not be written completely

---
 src/pomdpModels/lifeSurvey/dumpMap.cc        | 7 ++++++-
 src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/dumpMap.cc b/src/pomdpModels/lifeSurvey/dumpMap.cc
index 4793101..e19a0ab 100644
--- a/src/pomdpModels/lifeSurvey/dumpMap.cc
+++ b/src/pomdpModels/lifeSurvey/dumpMap.cc
@@ -135,7 +135,12 @@ int main(int argc, char *argv[]) {
       }
     }
   }
-  fclose(mapDumpFile);
+  bool failed = (0 != ferror(mapDumpFile));
+  if (0 != fclose(mapDumpFile) || failed) {
+    fprintf(stderr, "ERROR: couldn't finish writing '%s'\n",
+            mapDumpFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", mapDumpFileName.c_str());
 }
diff --git a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
index 0610459..1527ba5 100644
--- a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
@@ -149,6 +149,12 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   m.writeToFile(pomdpFile, fullIdentifiers);
+  bool failed = (0 != ferror(pomdpFile));
+  if (0 != fclose(pomdpFile) || failed) {
+    fprintf(stderr, "ERROR: couldn't finish writing '%s'\n",
+            pomdpFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", pomdpFileName.c_str());
 }
-- 
2.43.0


From ec82c6c63651960385ec1748d937b460d2bdba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 69/75] Revert the changes to src/parsers/pomdp_spec.y

The handling of wildcards in start state lists and of 'reset' in MDPs is
as it was; both are recorded as known findings.
---
 src/parsers/pomdp_spec.y | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 45ba91b..367ff22 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -969,14 +969,10 @@ void enterResetMatrix() {
         for (j = 0; j < gNumStates; j++)
           addEntryToIMatrix(IP[a], i, j, gInitialBelief[j]);
 
-  else if (gInitialState == INVALID_STATE) {
-    /* It is an MDP with no start state to return to */
-    ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_RESET_USAGE, "");
-  } else /* It is an MDP */
+  else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        for (j = 0; j < gNumStates; j++)
-          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
+        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
@@ -1175,10 +1171,7 @@ void enterMatrix(double value) {
       gTooManyEntries = 1;
 
     else {
-      if ((value < 0) || (value >= gNumStates))
-        ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_STATE_VAL, "");
-      else
-        gInitialState = (int)value;
+      gInitialState = (int)value;
       curCol++;
     }
     break;
@@ -1359,13 +1352,6 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
-  /* a wildcard stands for every state */
-  if (i == WILDCARD_SPEC) {
-    for (i = 0; i < gNumStates; i++)
-      enterStartState(i);
-    return;
-  }
-
   switch (curMatrixContext) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
@@ -1519,7 +1505,6 @@ void initParser() {
   currentLineNumber = 1;
   curMnemonic = nt_unknown;
   curMatrixContext = mc_none;
-  gInitialState = INVALID_STATE;
 
 } /* initParser */
 /************************************************************************/
-- 
2.43.0


From 39da18708743351cf7ddd6dc97cd71e135415ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 70/75] fix: MDP start states out of range were not rejected

---
 src/parsers/CassandraParser.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 2ac3f17..68de014 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -94,11 +94,19 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
          << endl;
     exit(EXIT_FAILURE);
   }
-  if (!expectPomdp && INVALID_STATE == CASSANDRA_GLOBAL(gInitialState)) {
-    cerr << "ERROR: " << p.fileName
-         << ": no 'start' statement specifying the start state of the MDP"
-         << endl;
-    exit(EXIT_FAILURE);
+  if (!expectPomdp) {
+    int start = CASSANDRA_GLOBAL(gInitialState);
+    if (INVALID_STATE == start) {
+      cerr << "ERROR: " << p.fileName
+           << ": no 'start' statement specifying the start state of the MDP"
+           << endl;
+      exit(EXIT_FAILURE);
+    }
+    if (start < 0 || start >= CASSANDRA_GLOBAL(gNumStates)) {
+      cerr << "ERROR: " << p.fileName << ": the start state " << start
+           << " is not one of the states of the MDP" << endl;
+      exit(EXIT_FAILURE);
+    }
   }
 
   // from here forward, we're converting the model from the data structures in
-- 
2.43.0


From f8c6978550bd71d23c258913d8a215e8a066e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:55 +0000
Subject: [PATCH 71/75] fix: zmdpRockExplore did not compile

---
 src/pomdpModels/RockExplore/REBasicPomdp.cc      | 1 +
 src/pomdpModels/RockExplore/RockExplorePolicy.cc | 3 +--
 src/pomdpModels/RockExplore/zmdpRockExplore.cc   | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/RockExplore/REBasicPomdp.cc b/src/pomdpModels/RockExplore/REBasicPomdp.cc
index 60092fe..257e4d6 100644
--- a/src/pomdpModels/RockExplore/REBasicPomdp.cc
+++ b/src/pomdpModels/RockExplore/REBasicPomdp.cc
@@ -26,6 +26,7 @@
 #include <getopt.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <sys/time.h>
 #include <unistd.h>
 
diff --git a/src/pomdpModels/RockExplore/RockExplorePolicy.cc b/src/pomdpModels/RockExplore/RockExplorePolicy.cc
index c8c47ed..d071cea 100644
--- a/src/pomdpModels/RockExplore/RockExplorePolicy.cc
+++ b/src/pomdpModels/RockExplore/RockExplorePolicy.cc
@@ -359,8 +359,7 @@ MDPExecCore *getPolicy(int policyType) {
       ZMDPConfig *config = new ZMDPConfig();
       config->readFromString("<defaultConfig>", defaultConfig.data);
       BoundPairExec *policy = new BoundPairExec();
-      policy->initMaxPlanes("RockExplore.pomdp",
-                            /* useFastParser = */ false, "out.policy", *config);
+      policy->initReadFiles("RockExplore.pomdp", "out.policy", *config);
       return policy;
     }
     default:
diff --git a/src/pomdpModels/RockExplore/zmdpRockExplore.cc b/src/pomdpModels/RockExplore/zmdpRockExplore.cc
index c025f96..41390d3 100644
--- a/src/pomdpModels/RockExplore/zmdpRockExplore.cc
+++ b/src/pomdpModels/RockExplore/zmdpRockExplore.cc
@@ -27,6 +27,7 @@
 #include "zmdpCommonTime.h"
 // #include "solverUtils.h"
 #include "RockExplorePolicy.h"
+#include "embedFiles.h"
 #include "zmdpMainConfig.cc"  // embed default config file
 #include "zmdpMainConfig.h"
 
-- 
2.43.0


From b480c42c0d9f0e70a339c9c958a8716f6009bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:36 +0000
Subject: [PATCH 72/75] fix: zmdpRockExplore menus repeated forever at end of
 input or after a long line

---
 src/pomdpModels/RockExplore/RockExplorePolicy.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pomdpModels/RockExplore/RockExplorePolicy.cc b/src/pomdpModels/RockExplore/RockExplorePolicy.cc
index d071cea..3941cac 100644
--- a/src/pomdpModels/RockExplore/RockExplorePolicy.cc
+++ b/src/pomdpModels/RockExplore/RockExplorePolicy.cc
@@ -282,7 +282,11 @@ int UserPolicy::chooseAction(void) {
     cout.flush();
 
     std::string as;
-    cin >> as;
+    if (!(cin >> as)) {
+      // End of input
+      printf("\n");
+      exit(EXIT_FAILURE);
+    }
     for (int ai = 0; ai < m.getNumActions(); ai++) {
       if (as == m.getActionString(ai)) {
         return ai;
@@ -304,9 +308,13 @@ void HeuristicPolicy::advanceToNextState(int a, int o) {
 // Accepts a numeric value input on console.
 int getUserChoice(void) {
   int choice;
-  char buf[256];
-  cin.getline(buf, sizeof(buf));
-  if (1 != sscanf(buf, "%d", &choice)) {
+  std::string line;
+  if (!getline(cin, line)) {
+    // End of input
+    printf("\n");
+    exit(EXIT_FAILURE);
+  }
+  if (1 != sscanf(line.c_str(), "%d", &choice)) {
     return -1;
   }
   return choice;
-- 
2.43.0


From 1dd5fd289ccca2f2bee168a00ef7571f0ed54621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:36 +0000
Subject: [PATCH 73/75] fix: extreme random draws made zmdpRockExplore abort or
 choose impossible observations

---
 src/pomdpModels/RockExplore/REBasicPomdp.cc | 40 ++++++++++++++-------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/pomdpModels/RockExplore/REBasicPomdp.cc b/src/pomdpModels/RockExplore/REBasicPomdp.cc
index 257e4d6..51d51c7 100644
--- a/src/pomdpModels/RockExplore/REBasicPomdp.cc
+++ b/src/pomdpModels/RockExplore/REBasicPomdp.cc
@@ -277,32 +277,48 @@ void REBasicPomdp::writeCassandraModel(const std::string &outFile) {
 
 // Returns a stochastically selected state index from the distribution b.
 int REBasicPomdp::chooseStochasticOutcome(const REBelief &b) {
-  // Generate a random floating point value between 0 and 1.
-  double p = (static_cast<double>(std::rand())) / RAND_MAX;
+  // Generate a random floating point value between 0 (included) and 1
+  // (excluded).
+  double p = std::rand() / (RAND_MAX + 1.0);
 
   // Select an outcome based on p.
+  int choice = -1;
   for (int i = 0; i < static_cast<int>(b.size()); i++) {
-    p -= b[i].prob;
-    if (p <= 0) {
-      return b[i].index;
+    if (b[i].prob > 0) {
+      choice = b[i].index;
+      p -= b[i].prob;
+      if (p < 0) {
+        break;
+      }
     }
   }
-  assert(0);  // never reach this point
+  // If round-off error made the sum of the probabilities smaller than p, this
+  // is the last possible outcome.
+  assert(-1 != choice);
+  return choice;
 }
 
 // Returns a stochastically selected observation from the distribution obsProbs.
 int REBasicPomdp::chooseStochasticOutcome(const REObsProbs &obsProbs) {
-  // Generate a random floating point value between 0 and 1.
-  double p = (static_cast<double>(std::rand())) / RAND_MAX;
+  // Generate a random floating point value between 0 (included) and 1
+  // (excluded).
+  double p = std::rand() / (RAND_MAX + 1.0);
 
   // Select an outcome based on p.
+  int choice = -1;
   for (int o = 0; o < static_cast<int>(obsProbs.size()); o++) {
-    p -= obsProbs[o];
-    if (p <= 0) {
-      return o;
+    if (obsProbs[o] > 0) {
+      choice = o;
+      p -= obsProbs[o];
+      if (p < 0) {
+        break;
+      }
     }
   }
-  assert(0);  // never reach this point
+  // If round-off error made the sum of the probabilities smaller than p, this
+  // is the last possible outcome.
+  assert(-1 != choice);
+  return choice;
 }
 
 // Returns the most likely state according to the distribution b.
-- 
2.43.0


From 9c7a2918cdbdbae47251d8089f0a833a8d37f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 74/75] fix: zmdpRockExplore reported success when its model
 could not be written

---
 src/pomdpModels/RockExplore/REBasicPomdp.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/RockExplore/REBasicPomdp.cc b/src/pomdpModels/RockExplore/REBasicPomdp.cc
index 51d51c7..a17ae96 100644
--- a/src/pomdpModels/RockExplore/REBasicPomdp.cc
+++ b/src/pomdpModels/RockExplore/REBasicPomdp.cc
@@ -272,7 +272,12 @@ void REBasicPomdp::writeCassandraModel(const std::string &outFile) {
     }
   }
 
-  fclose(out);
+  bool writeFailed = (0 != ferror(out));
+  if (0 != fclose(out) || writeFailed) {
+    cerr << "ERROR: couldn't write " << outFile << ": " << strerror(errno)
+         << endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 // Returns a stochastically selected state index from the distribution b.
-- 
2.43.0


From c4bc00c787836284a476dac0e772ab818a09a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:08 +0000
Subject: [PATCH 75/75] fix: zmdpRockExplore visualized endlessly at end of
 input or after a long line

---
 src/pomdpModels/RockExplore/zmdpRockExplore.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/RockExplore/zmdpRockExplore.cc b/src/pomdpModels/RockExplore/zmdpRockExplore.cc
index 41390d3..5f46c34 100644
--- a/src/pomdpModels/RockExplore/zmdpRockExplore.cc
+++ b/src/pomdpModels/RockExplore/zmdpRockExplore.cc
@@ -37,8 +37,12 @@ using namespace zmdp;
 
 void waitForUser(void) {
   printf("Press [ENTER] to continue\n");
-  char buf[256];
-  cin.getline(buf, sizeof(buf));
+  std::string line;
+  if (!getline(cin, line)) {
+    // End of input
+    printf("\n");
+    exit(EXIT_FAILURE);
+  }
 }
 
 enum SimModes { MODE_MANUAL, MODE_VISUALIZE, MODE_EVAL };
-- 
2.43.0

