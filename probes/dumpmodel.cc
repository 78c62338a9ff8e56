// dumpmodel (std|fast) (pomdp|mdp) file: parse with the real parser, print everything the solver would use
#include <stdio.h>
#include <string.h>
#include <string>
#include "CassandraParser.h"
#include "FastParser.h"
using namespace std;
using namespace zmdp;
namespace zmdp { extern int zmdpDebugLevelG; }

struct M : public CassandraModel {
  state_vector dummy;
  const state_vector &getInitialState(void) { return dummy; }
  bool getIsTerminalState(const state_vector &s) { return false; }
  outcome_prob_vector &getOutcomeProbVector(outcome_prob_vector &r, const state_vector &s, int a) { return r; }
  state_vector &getNextState(state_vector &r, const state_vector &s, int a, int o) { return r; }
  double getReward(const state_vector &s, int a) { return 0; }
  AbstractBound *newLowerBound(const ZMDPConfig *c) { return NULL; }
  AbstractBound *newUpperBound(const ZMDPConfig *c) { return NULL; }
};

static void mat(const char *name, int a, cmatrix &m) {
  printf("M %s %d %d %d\n", name, a, (int)m.size1(), (int)m.size2());
  // through the accessor, as the solver does for single entries ...
  for (unsigned c = 0; c < m.size2(); c++)
    for (unsigned r = 0; r < m.size1(); r++) {
      double v = m(r, c);
      if (v != 0) printf("A %u %u %.17g\n", r, c, v);
    }
  // ... and column by column
  for (unsigned c = 0; c < m.size2(); c++) {
    cvector col;
    copy_from_column(col, m, c);
    for (unsigned r = 0; r < m.size1(); r++) {
      double v = col(r);
      if (v != 0) printf("C %u %u %.17g\n", r, c, v);
    }
  }
}

int main(int argc, char **argv) {
  if (argc != 4) return 3;
  M m;
  bool pomdp = !strcmp(argv[2], "pomdp");
  string f = argv[3];
  if (!strcmp(argv[1], "fast")) {
    FastParser p;
    if (pomdp) p.readPomdpFromFile(m, f); else p.readGenericDiscreteMDPFromFile(m, f);
  } else {
    CassandraParser p;
    if (pomdp) p.readPomdpFromFile(m, f); else p.readGenericDiscreteMDPFromFile(m, f);
  }
  printf("BEGIN\n");
  printf("discount %.17g\n", m.discount);
  printf("sizes %d %d %d\n", m.numStates, m.numActions, m.numObservations);
  if (pomdp) {
    printf("b0 %d", (int)m.initialBelief.size());
    for (unsigned i = 0; i < m.initialBelief.size(); i++) printf(" %.17g", (double)m.initialBelief(i));
    printf("\n");
  } else {
    printf("s0 %d %.17g\n", (int)m.initialState.size(), (double)m.initialState(0));
  }
  printf("term");
  for (size_t i = 0; i < m.isTerminalState.size(); i++) printf(" %d", (int)m.isTerminalState[i]);
  printf("\n");
  mat("R", 0, m.R);
  for (size_t a = 0; a < m.T.size(); a++) mat("T", a, m.T[a]);
  for (size_t a = 0; a < m.Ttr.size(); a++) mat("Ttr", a, m.Ttr[a]);
  if (pomdp)
    for (size_t a = 0; a < m.O.size(); a++) mat("O", a, m.O[a]);
  printf("END\n");
  return 0;
}
