// slaprobe SEED COUNT: run every sla operation on random operands, compare with dense arithmetic done here
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "sla.h"
#include "sla_mask.h"
#include "MatrixUtils.h"
using namespace std;
using namespace sla;
using namespace MatrixUtils;
namespace zmdp { extern int zmdpDebugLevelG; }

typedef vector<double> V;
struct D { int n, m; V d; D(int n_, int m_) : n(n_), m(m_), d(n_ * m_) {} double &operator()(int i, int j) { return d[i * m + j]; } };

static unsigned long long st;
static double u01() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (st >> 11) * (1.0 / 9007199254740992.0); }
static int rnd(int n) { return (int)(u01() * n); }
static int valmode;
static double val() {
  switch (valmode) {
    case 0: return 2 * u01() - 1;
    case 1: return rnd(7) - 3;            // ties, exact zeros
    case 2: return (u01() < .2 ? -1 : 1) * pow(10, rnd(13) - 8) * (1 + u01());
    case 3: return u01();
    default: return -u01();
  }
}
static V rv(int n, double fill) {
  V v(n);
  for (int i = 0; i < n; i++) if (u01() < fill) v[i] = val();
  return v;
}
// sparse representation, sometimes with explicit zero entries
static cvector cv(const V &v, double zeros) {
  cvector c;
  c.resize(v.size());
  for (size_t i = 0; i < v.size(); i++) if (v[i] != 0 || u01() < zeros) c.push_back(i, v[i]);
  c.canonicalize();
  return c;
}
static dvector dv(const V &v) { dvector d; d.resize(v.size()); for (size_t i = 0; i < v.size(); i++) d(i) = v[i]; return d; }
static V of(const dvector &d) { V v; for (size_t i = 0; i < d.size(); i++) v.push_back(d(i)); return v; }
static V of(const cvector &c) { V v; for (size_t i = 0; i < c.size(); i++) v.push_back(c(i)); return v; }

static map<string, long> counts;
static set<string> shapes;
static int bad = 0;
static string ctx;
static string show(const V &v) { ostringstream o; o.precision(17); o << "[" ; for (size_t i = 0; i < v.size() && i < 24; i++) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
static void fail(const string &op, const string &d) {
  if (bad < 20) printf("MISMATCH %s :: %s :: %s\n", op.c_str(), ctx.c_str(), d.c_str());
  bad++;
}
static double mag = 1;  // magnitude of the summed terms, for rounding
static void eq(const char *op, const V &got, const V &want, double abstol = 0) {
  counts[op]++;
  if (got.size() != want.size()) { fail(op, "another size"); return; }
  for (size_t i = 0; i < got.size(); i++)
    if (!(fabs(got[i] - want[i]) <= abstol + 1e-12 * mag)) {
      fail(op, "got " + show(got) + " want " + show(want));
      return;
    }
}
static void eq(const char *op, double got, double want) { eq(op, V(1, got), V(1, want)); }
static void eqb(const char *op, bool got, bool want) { counts[op]++; if (got != want) fail(op, got ? "got true" : "got false"); }
// stored entries must be in increasing index order and within the size
static void wf(const char *op, const cvector &c) {
  for (size_t i = 0; i < c.data.size(); i++)
    if (c.data[i].index >= c.size() || (i && c.data[i].index <= c.data[i - 1].index)) { fail(op, "entries out of order or range"); return; }
}
static double mx(const V &v) { double m = 0; for (double x : v) m = max(m, fabs(x)); return m; }
static V trunc10(V v) { return v; }

static const double EPS = 2e-10;  // copies into sparse form may drop entries up to 1e-10

static void one() {
  double fills[] = {0, .05, .2, .5, .8, 1};
  double zs[] = {0, 0, .5};
  int sizes[] = {1, 1, 2, 3, 4, 5, 7, 10, 16, 31, 60};
  int n = sizes[rnd(11)], m = sizes[rnd(11)];
  double fx = fills[rnd(6)], fy = fills[rnd(6)], fA = fills[rnd(6)], z = zs[rnd(3)];
  valmode = rnd(5);
  V x = rv(n, fx), y = rv(n, fy), w = rv(m, fy);
  if (rnd(6) == 0) y = x;
  if (rnd(6) == 0) for (int i = 0; i < n; i++) y[i] = x[i] + (rnd(3) - 1) * (rnd(2) ? 1e-3 : 0);
  D A(n, m);
  for (int i = 0; i < n * m; i++) if (u01() < fA) A.d[i] = val();
  if (rnd(5) == 0 && m > 0) { int c = rnd(m); for (int i = 0; i < n; i++) A(i, c) = 0; }
  char b[200];
  snprintf(b, sizeof b, "%dx%d fill %.2g/%.2g/%.2g values %d zeros %.1g", n, m, fx, fy, fA, valmode, z);
  ctx = b;
  shapes.insert(ctx);
  cvector X = cv(x, z), Y = cv(y, z), W = cv(w, z);
  dvector DX = dv(x), DY = dv(y), DW = dv(w);
  mag = max(1.0, max(mx(x), mx(y)));

  // matrices through the coordinate form, in random order, with earlier values overwritten by later ones
  kmatrix K(n, m);
  vector<pair<int, int> > order;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (A(i, j) != 0 || u01() < z * .1) order.push_back(make_pair(i, j));
  bool shuffled = rnd(3) > 0;
  if (shuffled) for (size_t i = order.size(); i > 1; i--) swap(order[i - 1], order[rnd(i)]);
  if (rnd(2)) for (size_t i = 0; i < order.size(); i++) if (rnd(4) == 0) kmatrix_set_entry(K, order[i].first, order[i].second, val());
  for (size_t i = 0; i < order.size(); i++) kmatrix_set_entry(K, order[i].first, order[i].second, A(order[i].first, order[i].second));
  kmatrix KT = K;
  kmatrix_transpose_in_place(KT);
  cmatrix C, CT;
  if (rnd(3) == 0) copy(C, KT);  // the target's old contents must not matter
  copy(C, K);
  copy(CT, KT);
  V all, got, gotT;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { all.push_back(A(i, j)); got.push_back(C(i, j)); gotT.push_back(CT(j, i)); }
  if ((int)C.size1() != n || (int)C.size2() != m) fail("kmatrix -> cmatrix", "another shape");
  if ((int)CT.size1() != m || (int)CT.size2() != n) fail("transpose", "another shape");
  eq("kmatrix -> cmatrix", got, all, EPS);
  eq("transpose", gotT, all, EPS);
  got.clear();
  K.canonicalize();
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) got.push_back(K(i, j));
  eq("kmatrix entry", got, all);
  {
    cmatrix P(n, m);  // column by column
    long fill = 0;
    for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) if (A(i, j) != 0) { P.push_back(i, j, A(i, j)); fill++; }
    P.canonicalize();
    got.clear();
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) got.push_back(P(i, j));
    eq("cmatrix entry", got, all);
    if ((long)P.filled() != fill) fail("cmatrix filled", "another count");
    long s = 0;
    for (int j = 0; j < m; j++) { long k = 0; for (int i = 0; i < n; i++) k += A(i, j) != 0; if ((long)P.filled_in_column(j) != k) fail("filled_in_column", "another count"); s += k; }
    counts["filled_in_column"]++;
  }
  // copies
  dvector d; cvector c;
  if (rnd(2)) { copy(d, W); copy(c, DW); }
  copy(d, X); eq("copy sparse -> dense", of(d), x);
  copy(c, DX); eq("copy dense -> sparse", of(c), x, EPS); wf("copy dense -> sparse", c);
  copy(c, X); eq("copy sparse -> sparse", of(c), x);
  copy(d, DX); eq("copy dense -> dense", of(d), x);
  if ((int)X.size() != n) fail("size", "another size");
  int col = rnd(m);
  V Ac; for (int i = 0; i < n; i++) Ac.push_back(A(i, col));
  copy_from_column(c, C, col); eq("column (sparse)", of(c), Ac, EPS); wf("column (sparse)", c);
  copy_from_column(d, C, col); eq("column (dense)", of(d), Ac, EPS);
  set_to_one(d, n); eq("ones (dense)", of(d), V(n, 1.0));
  set_to_one(c, n); eq("ones (sparse)", of(c), V(n, 1.0));
  // norms and sums
  double n1 = 0, ni = 0, s = 0;
  for (double t : x) { n1 += fabs(t); ni = max(ni, fabs(t)); s += t; }
  double keep = mag; mag = max(1.0, n1);
  eq("norm_1", norm_1(X), n1); eq("norm_inf (sparse)", norm_inf(X), ni); eq("norm_inf (dense)", norm_inf(DX), ni);
  eq("sum (sparse)", sum(X), s); eq("sum (dense)", sum(DX), s);
  // products
  double amax = mx(all);
  mag = max(1.0, amax * max(mx(x), max(mx(y), mx(w))) * max(n, m));
  double dropped = EPS * max(1.0, max(mx(w), mx(x))) * max(n, m);
  V Aw(n), xA(m);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { Aw[i] += A(i, j) * w[j]; xA[j] += x[i] * A(i, j); }
  mult(d, C, W); eq("A*x (dense)", of(d), Aw, dropped);
  mult(c, C, W); eq("A*x (sparse)", of(c), Aw, dropped); wf("A*x (sparse)", c);
  mult(d, CT, X); eq("A'*x (dense)", of(d), xA, dropped);
  mult(c, CT, X); eq("A'*x (sparse)", of(c), xA, dropped); wf("A'*x (sparse)", c);
  mult(d, DX, C); eq("x*A (dense x)", of(d), xA, dropped);
  mult(d, X, C); eq("x*A (dense)", of(d), xA, dropped);
  mult(c, X, C); eq("x*A (sparse)", of(c), xA, dropped); wf("x*A (sparse)", c);
  // elementwise
  V e(n), ec(n), mxv(n), ad(n), su(n), sc(n);
  double k = val(), ip = 0, ipc = 0;
  for (int i = 0; i < n; i++) {
    e[i] = x[i] * y[i]; ec[i] = Ac[i] * x[i]; mxv[i] = max(x[i], y[i]); ad[i] = x[i] + y[i]; su[i] = x[i] - y[i];
    sc[i] = k * x[i]; ip += e[i]; ipc += ec[i];
  }
  mag = max(1.0, mx(x) * mx(y) * n);
  emult(d, DX, DY); eq("x.*y (dense)", of(d), e);
  emult(c, X, Y); eq("x.*y (sparse)", of(c), e); wf("x.*y (sparse)", c);
  emult(d, DX, Y); eq("x.*y (dense, sparse)", of(d), e);
  eq("x'y (dense, sparse)", inner_prod(DX, Y), ip);
  eq("x'y (sparse)", inner_prod(X, Y), ip);
  mag = max(1.0, mx(x) * amax * n);
  emult_column(c, C, col, X); eq("column.*x (sparse)", of(c), ec, dropped); wf("column.*x (sparse)", c);
  emult_column(d, C, col, DX); eq("column.*x (dense)", of(d), ec, dropped);
  eq("column'x", inner_prod_column(C, col, X), ipc), 0;
  mag = max(keep, fabs(k) * keep);
  emax(d, DX, DY); eq("max(x,y)", of(d), mxv);
  d = DX; max_assign(d, DY); eq("x = max(x,y)", of(d), mxv);
  add(c, X, Y); eq("x+y", of(c), ad); wf("x+y", c);
  subtract(c, X, Y); eq("x-y", of(c), su); wf("x-y", c);
  c = X; c += Y; eq("x += y (sparse)", of(c), ad);
  c = X; c -= Y; eq("x -= y (sparse)", of(c), su);
  c = X; c *= k; eq("x *= k (sparse)", of(c), sc);
  d = DX; d += DY; eq("x += y (dense)", of(d), ad);
  d = DX; d -= DY; eq("x -= y (dense)", of(d), su);
  d = DX; d *= k; eq("x *= k (dense)", of(d), sc);
  c = X; c += c; for (int i = 0; i < n; i++) ad[i] = 2 * x[i]; eq("x += x", of(c), ad);
  // comparisons
  double epss[] = {0, 1e-10, 1e-4, .5};
  double eps = epss[rnd(4)];
  bool dom = true, near = false;
  for (int i = 0; i < n; i++) { double t = x[i] - (y[i] - eps); if (t < 0) dom = false; if (t != 0 && fabs(t) < 1e-14 * keep) near = true; }
  if (!near) {
    eqb("dominates (dense)", dominates(DX, DY, eps), dom);
    eqb("dominates (sparse)", dominates(X, Y, eps), dom);
  }
  int a1 = argmax_elt(DX), a2 = argmax_elt(X);
  double best = x[0]; int first = 0;
  for (int i = 1; i < n; i++) if (x[i] > best) { best = x[i]; first = i; }
  if (a1 < 0 || a1 >= n) fail("argmax (dense)", "out of range"); else eq("argmax (dense)", x[a1], best);
  if (a2 < 0 || a2 >= n) fail("argmax (sparse)", "out of range"); else eq("argmax (sparse)", x[a2], best);
  (void)first;
  // masks: the mask's stored entries are the members
  V mm(n), ym(n);
  double fm = fills[rnd(6)];
  for (int i = 0; i < n; i++) { mm[i] = u01() < fm; ym[i] = u01() < fx; }
  if (rnd(3) == 0) for (int i = 0; i < n; i++) if (x[i] != 0) mm[i] = 1;
  if (rnd(3) == 0) for (int i = 0; i < n; i++) if (ym[i]) mm[i] = 1;
  mvector M = cv(mm, 0), YM = cv(ym, 0);
  cvector XN = cv(x, 0);
  V mc(n); bool sub = true, sub2 = true;
  for (int i = 0; i < n; i++) { if (mm[i]) mc[i] = x[i]; if (x[i] != 0 && !mm[i]) sub = false; if (ym[i] && !mm[i]) sub2 = false; }
  mask_copy(c, X, M); eq("mask copy (sparse)", of(c), mc); wf("mask copy (sparse)", c);
  mask_copy(c, DX, M); eq("mask copy (dense)", of(c), mc); wf("mask copy (dense)", c);
  eqb("mask subset", mask_subset(XN, M), sub);
  if (!near) eqb("mask dominates", mask_dominates(X, Y, eps, M, YM), sub2 && dom);
  mask_set_to_one(c, M); eq("mask ones", of(c), mm);
  mask_set_all(M, n); eq("mask all", of(M), V(n, 1.0));
  // clearing and resizing forget the old contents
  c = X; c.clear(); if ((int)c.size() != n || c.filled() != 0) fail("clear", "contents left"); else { eq("clear", of(c), V(n)); }
  c = X; c.resize(m); eq("resize (sparse)", of(c), V(m));
  d = DX; d.resize(m); eq("resize (dense)", of(d), V(m));
  // text form (6 significant digits)
  double tol = 1e-5 * max(1.0, max(amax, mx(x)));
  { ostringstream o; DX.write(o); istringstream in(o.str()); d = DW; d.read(in); eq("write/read (dense)", of(d), x, tol); }
  { ostringstream o; C.write(o); istringstream in(o.str()); cmatrix R; R.read(in); got.clear();
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) got.push_back(R(i, j)); eq("write/read (matrix)", got, all, tol + EPS); }
  { ostringstream o; o.precision(17); o << n << " " << X.filled(); for (auto &t : X.data) o << " " << t.index << " " << t.value;
    istringstream in(o.str()); c = W; c.read(in); eq("read (sparse)", of(c), x); }
  // hash keys identify equal vectors, however they are stored
  { string h1 = hashable(XN), h2; cvector again; copy(again, DX); 
    bool tiny = false; for (double t : x) if (t != 0 && fabs(t) <= EPS) tiny = true;
    if (!tiny) { h2 = hashable(again); eqb("hash of equal vectors", h1 == h2, true); }
    bool diff = false; for (int i = 0; i < n; i++) if (fabs(x[i] - y[i]) > 1e-6) diff = true;
    if (diff) { h2 = hashable(cv(y, 0)); eqb("hash of different vectors", h1 == h2, false); } }
}

int main(int argc, char **argv) {
  st = 88172645463325252ull ^ (strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull);
  for (int i = 0; i < 20; i++) u01();
  int cnt = atoi(argv[2]);
  for (int i = 0; i < cnt; i++) one();
  for (auto &p : counts) printf("OP %ld %s\n", p.second, p.first.c_str());
  printf("SHAPES %d\n", (int)shapes.size());
  printf("END %d\n", bad);
  return bad != 0;
}
