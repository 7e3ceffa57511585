/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/bounded_nelder_mead.cpp"], "ubsan": true,
 "bounds": "1 and 2 parameters, both senses, every objective (an uninterpreted function with values in [-64, 64]), searches that end within the stated number of evaluations",
 "assumptions": ["the initial simplex lies within the bounds", "real arithmetic on the objective values"],
 "entries": [
  {"name": "c20_one", "opts": "real,nomerge", "covers": ["start best", "moved"], "bounds": "1 parameter, up to 8 evaluations"},
  {"name": "c20_two", "opts": "real,nomerge", "covers": ["start best", "moved"], "bounds": "2 parameters, up to 5 evaluations"},
  {"name": "c20_again", "opts": "real,nomerge", "covers": ["same"], "bounds": "1 parameter, a run of up to 5 evaluations after one of up to 5"},
  {"name": "c20_many", "opts": "real", "covers": ["start best", "moved"], "bounds": "3 or 5 parameters, whole runs of up to 60 evaluations on a bowl (3) or noise (5), free at evaluated point 1, 3, 5 or 7"}
 ]}
*/
#include <k52/optimization/bounded_nelder_mead.h>
#include "opt_util.h"
static Pt search(BoundedNelderMead& m, Log& log, Fn& f, const Pt& start, double lo, double hi, bool maximize) {
  Pt r = run(m, f, start, maximize); double s = maximize ? -1 : 1, fr = s * f.at(r);
  sym_assert(r.size() == start.size(), "dimension"); sym_assert(member(log.p, r), "the result was not evaluated"); sym_assert(inside(r, lo, hi), "the result lies outside the bounds");
  for (size_t i = 0; i < log.p.size(); i++) { sym_assert(inside(log.p[i], lo, hi), "a point outside the bounds is evaluated"); sym_assert(!(s * log.v[i] < fr), "the result is worse than a point evaluated"); }
  return r;
}
ENTRY(c20_one) {
  static const double c[3][5] = {{0.5, 1, 1, -2, 2}, {0, 2, 0.5, -1, 2.5}, {-1, 1, 4, -1, 1}}; int k = sym_choice("config", 3); bool mx = sym_choice("maximize", 2); Log log; log.limit = 8; Fn f(&log, false, -64, 64); BoundedNelderMead m(c[k][1], c[k][2], c[k][3], c[k][4]);
  Pt st(1, c[k][0]), r = search(m, log, f, st, c[k][3], c[k][4], mx); if (same(r, st)) sym_cover("start best"); else sym_cover("moved");
}
ENTRY(c20_two) {
  static const double c[1][4] = {{1, 8, -2, 2}}; int k = 0; bool mx = sym_choice("maximize", 2); Log log; log.limit = 5; Fn f(&log, false, -64, 64); BoundedNelderMead m(c[k][0], c[k][1], c[k][2], c[k][3]);
  Pt st(2, 0.); st[1] = 0.25; Pt r = search(m, log, f, st, c[k][2], c[k][3], mx); if (same(r, st)) sym_cover("start best"); else sym_cover("moved");
}
ENTRY(c20_again) {
  bool mx = sym_choice("maximize", 2); BoundedNelderMead m(1, 1, -2, 2), fresh(1, 1, -2, 2); Pt st(1, 0.5), st0(1, sym_choice("other start", 2) ? 0.5 : 0.25);
  Log l0, l1, l2; l0.limit = l1.limit = l2.limit = 5; Fn g(&l0, false, -64, 64, "g"), f(&l1, false, -64, 64), f2(&l2, false, -64, 64); run(m, g, st0, mx); Pt r = search(m, l1, f, st, -2, 2, mx), q = search(fresh, l2, f2, st, -2, 2, mx);
  sym_assert(same(r, q), "the result depends on an earlier run"); sym_cover("same");
}
ENTRY(c20_many) {
  int n = sym_choice("parameters", 2) ? 5 : 3, s = n == 5; spike.arm(sym_choice("free", 4) * 2, s); bool mx = sym_choice("maximize", 2); Log log; log.limit = 60; Fn f(&log); BoundedNelderMead m(1, 16, -2, 2); Pt st(n, 0.25), r = search(m, log, f, st, -2, 2, mx); if (same(r, st)) sym_cover("start best"); else sym_cover("moved");
}
