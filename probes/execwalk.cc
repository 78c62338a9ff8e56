// execwalk CONFIG SEED NCALLS MODEL1 POLICY1 TYPE1 FAST1 [MODEL2 POLICY2 TYPE2 FAST2 ...]
// A program that drives one or more policy executives through the public interface, in an order drawn from SEED,
// and prints every call and what it returned.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <string>
#include <vector>
#include "zmdpConfig.h"
#include "MatrixUtils.h"
#include "BoundPairExec.h"
using namespace std;
using namespace MatrixUtils;
using namespace zmdp;

static unsigned long long st;
static double u01() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (st >> 11) * (1.0 / 9007199254740992.0); }
static int rnd(int n) { return (int)(u01() * n); }
static void pv(const char *tag, int id, const state_vector &s) {
  printf("%s %d %u", tag, id, (unsigned)s.size());
  for (unsigned i = 0; i < s.size(); i++) { double v = s(i); if (v != 0) printf(" %u:%.17g", i, v); }
  printf("\n");
}

int main(int argc, char **argv) {
  if (argc < 8 || argc % 4) return 3;
  st = 88172645463325252ull ^ (strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ull);
  for (int i = 0; i < 20; i++) u01();
  int ncalls = atoi(argv[3]);
  vector<BoundPairExec *> ex;
  for (int i = 4; i + 3 < argc; i += 4) {
    ZMDPConfig *config = new ZMDPConfig();
    config->readFromFile(argv[1]);
    config->setString("policyType", argv[i + 2]);
    config->setString("useFastModelParser", argv[i + 3]);
    BoundPairExec *e = new BoundPairExec();
    e->initReadFiles(argv[i], argv[i + 1], *config);
    ex.push_back(e);
  }
  vector<int> started(ex.size(), 0);
  vector<vector<belief_vector> > past(ex.size());
  vector<int> lastA(ex.size(), -1);
  for (int n = 0; n < ncalls; n++) {
    int i = rnd(ex.size());
    BoundPairExec *be = ex[i];
    MDPExec *e = be;
    printf("ON %d\n", i);
    int what = started[i] ? rnd(16) : 0;
    if (what == 0) {
      e->setToInitialState();
      started[i] = 1;
      printf("RESET\n");
    } else if (what == 1 && !past[i].empty()) {
      int k = rnd(past[i].size());
      be->setBelief(past[i][k]);
      pv("SET", k, past[i][k]);
    } else if (what < 4) {
      printf("TERMINAL %d\n", (int)e->getStateIsTerminal());
    } else if (what < 9) {
      lastA[i] = e->chooseAction();
      printf("CHOOSE %d\n", lastA[i]);
    } else if (what < 11) {
      int a = rnd(e->mdp->getNumActions());
      printf("DRAW %d %d\n", a, e->getRandomOutcome(a));
    } else {
      // mostly what was advised, sometimes the user's own choice
      int a = lastA[i] >= 0 && rnd(3) ? lastA[i] : rnd(e->mdp->getNumActions());
      outcome_prob_vector opv;
      state_vector s;
      e->mdp->getOutcomeProbVector(opv, e->getState(s), a);
      vector<int> can;
      for (unsigned o = 0; o < opv.size(); o++) if (opv(o) > 1e-9) can.push_back(o);
      if (can.empty()) { printf("NOOUTCOME %d\n", a); continue; }
      int o = can[rnd(can.size())];
      e->advanceToNextState(a, o);
      lastA[i] = -1;
      printf("ADVANCE %d %d\n", a, o);
    }
    state_vector s;
    e->getState(s);
    pv("STATE", i, s);
    if (past[i].size() < 40) past[i].push_back(s); else past[i][rnd(40)] = s;
  }
  printf("END\n");
  // last, an observation the model excludes: no further advice may be given
  for (unsigned i = 0; i < ex.size(); i++) {
    if (!started[i]) continue;
    MDPExec *e = ex[i];
    outcome_prob_vector opv;
    state_vector s;
    for (int a = 0; a < e->mdp->getNumActions(); a++) {
      e->mdp->getOutcomeProbVector(opv, e->getState(s), a);
      for (unsigned o = 0; o < opv.size(); o++) {
        if (opv(o) != 0) continue;
        printf("IMPOSSIBLE %u %d %u\n", i, a, o);
        fflush(stdout);
        e->advanceToNextState(a, o);
        printf("ADVICE %d\n", e->chooseAction());
        return 0;
      }
    }
  }
  return 0;
}
