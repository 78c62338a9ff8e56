// modelwalk (pomdp|mdp|track|custom) FILE CONFIG SEED NMAX (dump|cache|order)
// Explores a model through the interface the solver uses (MDP), in an order drawn from SEED.
//   dump:  print what the model says about every state expanded
//   cache: walk the model and a CacheMDP of it in lockstep and compare them
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>
#include "zmdpConfig.h"
#include "MatrixUtils.h"
#include "Pomdp.h"
#include "GenericDiscreteMDP.h"
#include "RaceTrack.h"
#include "CustomMDP.h"
#include "CacheMDP.h"
using namespace std;
using namespace MatrixUtils;
using namespace zmdp;
namespace zmdp { extern int zmdpDebugLevelG; }

static unsigned long long st;
static double u01() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (st >> 11) * (1.0 / 9007199254740992.0); }
static int rnd(int n) { return (int)(u01() * n); }

static string key(const state_vector &s) {
  string k; char b[60];
  for (unsigned i = 0; i < s.size(); i++) { double v = s(i); if (v != 0) { snprintf(b, sizeof b, "%u:%.17g,", i, v); k += b; } }
  return k;
}
static void pv(const char *tag, int id, const state_vector &s) {
  printf("%s %d %u", tag, id, (unsigned)s.size());
  for (unsigned i = 0; i < s.size(); i++) { double v = s(i); if (v != 0) printf(" %u:%.17g", i, v); }
  printf("\n");
}

static void dump(MDP *m, int nmax) {
  map<string, int> ids;
  vector<state_vector> states, todo;
  vector<int> todoIds;
  printf("MODEL dims %d actions %d discount %.17g\n", m->getNumStateDimensions(), m->getNumActions(), m->getDiscount());
  state_vector s0 = m->getInitialState();
  ids[key(s0)] = 0; todo.push_back(s0); todoIds.push_back(0);
  pv("STATE", 0, s0);
  int next = 1;
  for (int n = 0; n < nmax && !todo.empty(); n++) {
    // mostly recent states (long paths), sometimes any
    int i = rnd(3) ? (int)todo.size() - 1 - rnd(todo.size() < 6 ? todo.size() : 6) : rnd(todo.size());
    state_vector s = todo[i]; int id = todoIds[i];
    todo[i] = todo.back(); todo.pop_back(); todoIds[i] = todoIds.back(); todoIds.pop_back();
    printf("EXP %d %d\n", id, (int)m->getIsTerminalState(s));
    vector<int> acts;
    for (int a = 0; a < m->getNumActions(); a++) acts.push_back(a);
    for (size_t k = acts.size(); k > 1; k--) swap(acts[k - 1], acts[rnd(k)]);
    for (size_t k = 0; k < acts.size(); k++) {
      int a = acts[k];
      outcome_prob_vector opv;
      m->getOutcomeProbVector(opv, s, a);
      printf("ACT %d %.17g %u\n", a, m->getReward(s, a), (unsigned)opv.size());
      for (unsigned o = 0; o < opv.size(); o++) {
        double p = opv(o);
        if (p == 0) continue;
        if (!(p > 1e-10)) { printf("OUT %u %.17g -1\n", o, p); continue; }
        state_vector t;
        m->getNextState(t, s, a, o);
        string kk = key(t);
        map<string, int>::iterator f = ids.find(kk);
        int tid;
        if (f == ids.end()) {
          tid = next++;
          ids[kk] = tid; todo.push_back(t); todoIds.push_back(tid);
          pv("STATE", tid, t);
        } else tid = f->second;
        printf("OUT %u %.17g %d\n", o, p, tid);
      }
    }
  }
  printf("END\n");
}

static int bad = 0;
static void fail(const char *what, const state_vector &s, int a, int o) {
  if (bad++ < 10) { printf("MISMATCH %s :: action %d outcome %d ", what, a, o); pv("state", 0, s); }
}

static void cache(MDP *m, int nmax) {
  CacheMDP *c = new CacheMDP(m);
  map<string, int> label;     // model state -> label in the table
  map<int, string> inverse;
  long q = 0, again = 0;
  vector<pair<state_vector, state_vector> > todo;  // (model state, table state)
  if (c->getNumActions() != m->getNumActions() || c->getDiscount() != m->getDiscount()) fail("parameters", m->getInitialState(), -1, -1);
  state_vector s0 = m->getInitialState();
  todo.push_back(make_pair(s0, (state_vector)c->getInitialState()));
  label[key(s0)] = (int)c->getInitialState()(0);
  inverse[(int)c->getInitialState()(0)] = key(s0);
  for (int n = 0; n < nmax && bad < 10; n++) {
    // states stay on the list: they are asked again later, when the table has grown
    int i = rnd(2) ? rnd(todo.size()) : (int)todo.size() - 1 - rnd(todo.size() < 4 ? todo.size() : 4);
    state_vector s = todo[i].first, t = todo[i].second, back;
    c->translateState(back, t);
    if (key(back) != key(s)) fail("state behind the label", s, -1, -1);
    if (m->getIsTerminalState(s) != c->getIsTerminalState(t)) fail("terminal flag", s, -1, -1);
    int a = rnd(m->getNumActions());
    for (int rep = 0; rep < 2; rep++) {
      int what = rnd(2);
      if (what || rep) { q++; if (m->getReward(s, a) != c->getReward(t, a)) fail("reward", s, a, -1); }
    }
    outcome_prob_vector p1, p2;
    m->getOutcomeProbVector(p1, s, a);
    c->getOutcomeProbVector(p2, t, a);
    if (p1.size() != p2.size()) { fail("number of outcomes", s, a, -1); continue; }
    for (unsigned o = 0; o < p1.size(); o++) {
      q++;
      if (p1(o) != p2(o)) fail("outcome probability", s, a, o);
      if (!(p1(o) > 1e-10)) continue;
      state_vector s1, t1, b1;
      m->getNextState(s1, s, a, o);
      c->getNextState(t1, t, a, o);
      if (t1.size() != 1) { fail("label size", s, a, o); continue; }
      c->translateState(b1, t1);
      string k1 = key(s1), kb = key(b1);
      int l = (int)t1(0);
      // states that differ by less than the table's resolution may share a label
      if (k1 != kb) {
        double d = 0;
        for (unsigned j = 0; j < s1.size(); j++) d = max(d, fabs(s1(j) - b1(j)));
        if (s1.size() != b1.size() || d > 2e-9) fail("successor", s, a, o);
        else { again++; continue; }
      }
      map<string, int>::iterator f = label.find(k1);
      if (f == label.end()) {
        if (inverse.count(l)) fail("two states with one label", s, a, o);
        label[k1] = l; inverse[l] = k1;
        todo.push_back(make_pair(s1, t1));
      } else if (f->second != l) fail("one state with two labels", s, a, o);
      else again++;
    }
  }
  printf("CACHE states %d questions %ld revisits %ld\n", (int)label.size(), q, again);
  printf("END %d\n", bad);
}

int main(int argc, char **argv) {
  if (argc != 7) return 3;
  st = 88172645463325252ull ^ (strtoull(argv[4], 0, 10) * 0x9E3779B97F4A7C15ull);
  for (int i = 0; i < 20; i++) u01();
  ZMDPConfig config;
  config.readFromFile(argv[3]);
  string k = argv[1], f = argv[2];
  MDP *m;
  if (k == "pomdp") m = new Pomdp(f, &config);
  else if (k == "mdp") m = new GenericDiscreteMDP(f, &config);
  else if (k == "track") m = new RaceTrack(f);
  else m = new CustomMDP(config);
  if (!strcmp(argv[6], "dump")) dump(m, atoi(argv[5]));
  else cache(m, atoi(argv[5]));
  return bad != 0;
}
