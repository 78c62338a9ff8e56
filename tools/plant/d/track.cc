// track FILE x y vx vy a: the distribution over next states of one action, found by exploring the track from its start
#include <stdio.h>
#include <stdlib.h>
#include <deque>
#include <map>
#include <string>
#include "zmdpConfig.h"
#include "RaceTrack.h"
using namespace std;
using namespace zmdp;
static string key(const state_vector &s) {
  string k; char b[40];
  for (unsigned i = 0; i < s.size(); i++) { snprintf(b, sizeof b, "%g ", (double)s(i)); k += b; }
  return k;
}
int main(int argc, char **argv) {



  RaceTrack m((string(argv[1])));
  string want = string(argv[2]) + " " + argv[3] + " " + argv[4] + " " + argv[5] + " ";
  int act = atoi(argv[6]);
  deque<state_vector> q;
  map<string, int> seen;
  q.push_back(m.getInitialState());
  seen[key(q[0])] = 1;
  for (int n = 0; n < 20000 && !q.empty(); n++) {
    state_vector s = q.front(); q.pop_front();
    map<string, double> d;
    for (int a = 0; a < m.getNumActions(); a++) {
      outcome_prob_vector p;
      m.getOutcomeProbVector(p, s, a);
      for (unsigned o = 0; o < p.size(); o++) {
        if (!(p(o) > 1e-10)) continue;
        state_vector t;
        m.getNextState(t, s, a, o);
        if (key(s) == want && a == act) d[m.getIsTerminalState(t) ? "finish" : key(t)] += p(o);
        if (!seen[key(t)]) { seen[key(t)] = 1; q.push_back(t); }
      }
    }
    if (d.size()) {
      for (map<string, double>::iterator i = d.begin(); i != d.end(); i++) printf("%s: %.6f\n", i->first.c_str(), i->second);
      return 0;
    }
  }
  printf("state not found\n");
}
