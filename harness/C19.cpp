/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/hooke_jeeves_method.cpp", "src/optimization/initialization_checker.cpp"], "ubsan": true,
 "bounds": "1 to 3 parameters, starts of a small family, every objective function (an uninterpreted function with finite values), searches of up to the stated number of evaluations",
 "assumptions": ["the first step is larger than the precision"],
 "entries": [
  {"name": "c19_one", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "1 parameter, up to 18 evaluations"},
  {"name": "c19_two", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "2 parameters, up to 18 evaluations"},
  {"name": "c19_three", "opts": "real,nomerge", "covers": ["stayed"], "bounds": "3 parameters, up to 20 evaluations"},
  {"name": "c19_limit", "opts": "real,nomerge", "covers": ["limit"], "bounds": "1 parameter, iteration limit 1 or 2"},
  {"name": "c19_many", "opts": "overflow", "covers": ["stayed", "moved"], "bounds": "4, 5, 8, 10 parameters, two known objectives free at one evaluated point of the first 40"},
  {"name": "c19_far", "opts": "overflow", "covers": ["moved"], "bounds": "1 or 2 parameters, a bowl 40 steps away, free at one evaluated point of the first 30"}
 ]}
*/
#include <k52/optimization/hooke_jeeves_method.h>
#include "opt_util.h"
static void search(size_t n, double acc, double init, size_t maxit, double prec, double div, double start, size_t limit, bool neighbours) {
  Log log; log.limit = limit; Fn f(&log); HookeJeevesMethod m(acc, init, maxit, prec, div); Pt x0(n, start); for (size_t i = 0; i < n; i++) x0[i] += 0.5 * i;
  bool maximize = sym_choice("maximize", 2); Pt r = run(m, f, x0, maximize); size_t done = log.p.size();
  sym_assert(r.size() == n, "the result has another dimension than the start");
  sym_assert(member(log.p, r), "the result was never evaluated"); double s = maximize ? -1 : 1, fr = s * f.at(r);
  sym_assert(!(fr > s * f.at(x0)), "the result is worse than the start");
  (void)done;
  if (!neighbours) return;
  double step = init; while (std::sqrt((double)n) * (step / div) > prec) step /= div;
  for (size_t i = 0; i < n; i++) for (int d = -1; d <= 1; d += 2) { Pt q = r; q[i] += d * step; sym_assert(member(log.p, q), "a neighbour of the result was not tried"); sym_assert(!(s * f.at(q) < fr), "a neighbour of the result is better than the result"); }
  if (same(r, x0)) sym_cover("stayed"); else sym_cover("moved");
}
ENTRY(c19_one) { static const double c[3][4] = {{1, 0.3, 2, 2}, {2, 0.3, 2, 0}, {1.5, 0.2, 4, -3}}; int k = sym_choice("config", 3); search(1, c[k][0], 1, 1000, c[k][1], c[k][2], c[k][3], 18, true); }
ENTRY(c19_two) { static const double c[2][4] = {{1, 0.8, 2, 2}, {2, 1.2, 2, 0}}; int k = sym_choice("config", 2); search(2, c[k][0], 1, 1000, c[k][1], c[k][2], c[k][3], 18, true); }
ENTRY(c19_three) { search(3, 2, 1, 1000, 1.5, 2, 1, 20, true); }
ENTRY(c19_limit) { int k = sym_choice("limit", 2); search(1, 2, 1, k + 1, 0.3, 2, 0, 20, false); sym_cover("limit"); }
ENTRY(c19_many) { static const int N[] = {4, 5, 8, 10}; int n = N[sym_choice("parameters", 4)], s = sym_choice("shape", 2); spike.arm(sym_choice("free", 40), s); search(n, s ? 1 : 1.5, 1, 1000, 0.6, 2, 0.25, 3000, true); }
ENTRY(c19_far) { int n = 1 + sym_choice("parameters", 2); spike.arm(sym_choice("free", 30), 0, -64, 4096); search(n, 1, 1, 1000, 0.3, 2, -40, 3000, true); sym_cover("moved"); }
