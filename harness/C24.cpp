/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/hleborodov_rosenbrock_method.cpp"], "ubsan": true,
 "bounds": "1 to 3 parameters, up to 5 stages, several steps, step limits and precisions, both senses, every objective (an uninterpreted function with values in [-10^6, 10^6])",
 "assumptions": ["real arithmetic on the objective values"],
 "entries": [
  {"name": "c24_one", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "1 parameter, 1..5 stages"},
  {"name": "c24_two", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "2 parameters, 1..3 stages"},
  {"name": "c24_three", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "3 parameters, 1..2 stages"},
  {"name": "c24_again", "opts": "real,nomerge", "covers": ["same"], "bounds": "a run of 2 stages on 1 or 2 parameters after one on 1 or 2 parameters"},
  {"name": "c24_many", "opts": "overflow", "covers": ["stayed", "moved"], "bounds": "1, 2, 4, 5, 8 parameters, up to 12 stages on a bowl or noise, free at one evaluated point of the first 40"}
 ]}
*/
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <cmath>
#include "opt_util.h"
static Pt search(HleborodovRosenbrockMethod& m, Log& log, Fn& f, const Pt& start, int stages, double first, double most, bool maximize) {
  Pt r = run(m, f, start, maximize); double s = maximize ? -1 : 1, fr = s * f.at(r); size_t n = start.size();
  sym_assert(r.size() == n, "dimension"); sym_assert(member(log.p, r), "the result was not evaluated"); sym_assert(!(s * f.at(start) < fr), "the result is worse than the start");
  // n orthogonal steps of at most `most` per stage, a trial along one of them
  for (size_t i = 0; i < log.p.size(); i++) { double d = 0; for (size_t j = 0; j < n; j++) d += (log.p[i][j] - start[j]) * (log.p[i][j] - start[j]); sym_assert(std::sqrt(d) <= std::max(first, stages * std::sqrt((double)n) * most) * 1.000001, "a point further away than the steps allow"); }
  if (same(r, start)) sym_cover("stayed"); else sym_cover("moved"); return r;
}
static const double conf[3][3] = {{0.1, 1, 4}, {0.5, 0.5, 0.625}, {0.01, 2, 2}}; // precision, first step, step limit
static void search(size_t n, int stages, int k) { bool mx = sym_choice("maximize", 2); Log log; Fn f(&log); Pt st(n, 0.25); HleborodovRosenbrockMethod m(conf[k][0], stages, conf[k][1], conf[k][2]); search(m, log, f, st, stages, conf[k][1], conf[k][2], mx); }
ENTRY(c24_one) { int k = sym_choice("config", 3); search(1, 1 + sym_choice("stages", 5), k); }
ENTRY(c24_two) { int k = sym_choice("config", 3); search(2, 1 + sym_choice("stages", 3), k); }
ENTRY(c24_three) { int k = sym_choice("config", 3); search(3, 1 + sym_choice("stages", 2), k); }
ENTRY(c24_again) {
  bool mx = sym_choice("maximize", 2); Log l0, l1, l2; Fn g(&l0, false, -1e6, 1e6, "g"), f(&l1), f2(&l2); Pt st(1 + sym_choice("parameters", 2), 0.25), st0(1 + sym_choice("other parameters", 2), 1.); HleborodovRosenbrockMethod m(0.1, 2, 1, 4), fresh(0.1, 2, 1, 4);
  run(m, g, st0, sym_choice("other sense", 2)); Pt r = search(m, l1, f, st, 2, 1, 4, mx), q = search(fresh, l2, f2, st, 2, 1, 4, mx); sym_assert(same(r, q), "the result depends on an earlier run"); sym_cover("same");
}
ENTRY(c24_many) { static const int N[] = {1, 2, 4, 5, 8}; int n = N[sym_choice("parameters", 5)], stages = 1 << sym_choice("stages", 4); if (stages == 8) stages = 12; int at = sym_choice("free", 40), shape = sym_choice("shape", 2); spike.arm(at, shape); search(n, stages, sym_choice("config", 3)); }
