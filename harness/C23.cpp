/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/simulated_annealing.cpp"], "ubsan": true,
 "bounds": "1 and 2 parameters, 1 to 3 iterations, both senses, every objective (an uninterpreted function with values in [-10^6, 10^6])",
 "assumptions": ["real arithmetic", "exp is only known to be 1 at 0, in [0,1] below, at least 1 above, 0 at minus infinity"],
 "entries": [
  {"name": "c23_steps", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "draws of 0, the middle and the largest value, 1..2 iterations; 3 iterations for one parameter and draws of 0 and the largest value"},
  {"name": "c23_draws", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "every random draw, one iteration of two on one or two parameters"},
  {"name": "c23_many", "opts": "real", "covers": ["stayed", "moved"], "bounds": "8, 17, 33 iterations with 1 or 3 parameters, free at one of 8 evaluated points"}
 ]}
*/
#include <k52/optimization/simulated_annealing.h>
#include <cstdlib>
#include "opt_util.h"
extern "C" { extern int (*sym_rand_hook)(); }
static int kinds = 3; static int draw() { static const int v[3] = {0, RAND_MAX / 2 + 1, RAND_MAX}; return v[kinds == 2 ? 2 * sym_choice("draw", 2) : sym_choice("draw", 3)]; }
static void anneal(int n, int k, double lo, double hi, Pt start) {
  bool maximize = sym_choice("maximize", 2); Log log; Fn f(&log); SimulatedAnnealing sa(k, lo, hi); ContinuousParametersArray a(start); bool t = THROWS(sa.Optimize(f, &a, maximize)); sym_assert(!t, "annealing fails"); if (t) return; Pt r = a.GetValues();
  double s = maximize ? -1 : 1, fr = s * f.at(r); sym_assert((int)r.size() == n, "dimension"); sym_assert(member(log.p, r), "the result was not evaluated");
  for (size_t i = 0; i < log.p.size(); i++) for (int j = 0; j < n; j++) sym_assert(sym_or(log.p[i][j] == start[j], sym_and(log.p[i][j] >= lo, log.p[i][j] <= hi)), "a coordinate is neither the start's nor within the bounds");
  // a candidate better than everything evaluated before it is taken; the result is the last one taken or a later one
  for (size_t i = 1; i < log.p.size(); i++) { int rec = 1, ok = 0; for (size_t j = 0; j < i; j++) rec = sym_and(rec, s * log.v[i] < s * log.v[j]); for (size_t j = i; j < log.p.size(); j++) ok = sym_or(ok, same(log.p[j], r)); sym_assert(sym_or(ok, !rec), "a candidate better than all before it was not taken"); }
  // the last candidate that is new is never declined in favour of a worse point
  const Pt& c = log.p.back(); sym_assert(sym_or(same(r, c), !(s * log.v.back() < fr)), "the last candidate is better than the result");
  if (same(r, start)) sym_cover("stayed"); else sym_cover("moved");
}
ENTRY(c23_steps) { sym_rand_hook = draw; int n = 1 + sym_choice("parameters", 2), k = 1 + sym_choice("iterations", 3); if (n == 2 && k > 2) return; if (k == 3) kinds = 2; Pt st(n, 0.75); anneal(n, k, -1, 1, st); }
ENTRY(c23_draws) { int n = 1 + sym_choice("parameters", 2); Pt st(n); for (int i = 0; i < n; i++) st[i] = sym_double("start", -8, 8); anneal(n, 1, -2, 2, st); }
static unsigned long long lcg = 1; static int next() { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return (int)(lcg >> 33); }
ENTRY(c23_many) { static const int K[] = {8, 17, 33}; int n = sym_choice("parameters", 2) ? 3 : 1, k = K[sym_choice("iterations", 3)], at = sym_choice("free", 8), shape = sym_choice("shape", 2); lcg = 1 + sym_choice("draws", 2); sym_rand_hook = next; spike.arm(at < 4 ? at : k - (at - 4) * k / 5, shape); anneal(n, k, -1, 1, Pt(n, 0.75)); }
