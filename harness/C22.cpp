/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/random_search.cpp", "src/optimization/simple_parameters_processor.cpp", "src/optimization/optimization_parameters_processor.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/optimization_task.cpp", "src/optimization/optimization_task_result.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/discrete_objective_function.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "1 to 3 parameters, 1 to 4 points, every random draw and every objective (an uninterpreted function with finite values); every one-step optimizer as the nested optimizer",
 "assumptions": ["bounds of dyadic values, real arithmetic (the bit-level bounds of a draw are C10)"],
 "entries": [
  {"name": "c22_plain", "opts": "real,nomerge", "covers": ["first best", "later best"], "bounds": "1..3 parameters, 1..4 points (at most 6 draws)"},
  {"name": "c22_nested", "opts": "real,nomerge", "covers": ["first best", "later best"], "bounds": "1..2 parameters, 1..3 points, an optimizer that moves every start to an arbitrary point"},
  {"name": "c22_empty", "opts": "real", "covers": ["refused"], "bounds": "no points"},
  {"name": "c22_many", "opts": "overflow", "covers": ["first best", "later best"], "bounds": "8, 17, 40, 100 points of 1 or 4 parameters, free at one of 12 of them"}
 ]}
*/
#include <k52/optimization/random_search.h>
#include "opt_util.h"
static const double B[3][2] = {{-1, 1}, {0, 8}, {-6, -2}};
// An optimizer of which only this is known: from one start it always ends at the same point, never a worse one.
struct Hop : ContinuousOptimizer {
  std::vector<Pt>* ends; explicit Hop(std::vector<Pt>* e) : ends(e) {}
  virtual Hop* Clone() const { return new Hop(ends); } virtual std::string get_name() const { return "hop"; }
  virtual std::vector<double> FindOptimalParameters(const std::vector<double>& x) { Pt y(x.size()); for (size_t i = 0; i < y.size(); i++) { char n[4] = {'g', (char)('0' + i), (char)('0' + x.size()), 0}; y[i] = sym_uf(n, (int)x.size(), x.data(), -100, 100); } CountObjectiveFunctionValueToMinimize(y); ends->push_back(y); return y; }
};
static void best(const Log& log, const std::vector<Pt>& cand, const Pt& r, bool maximize, Fn& f) {
  double s = maximize ? -1 : 1, fr = s * f.at(r); sym_assert(member(cand, r), "the result is not one of the points"); int first = 1;
  for (size_t i = 0; i < cand.size(); i++) { double v = s * f.at(cand[i]); sym_assert(!(v < fr), "one of the points is better than the result"); if (i) first = sym_and(first, !(v < s * f.at(cand[0]))); }
  if (first) { sym_cover("first best"); } else sym_cover("later best");
}
ENTRY(c22_plain) {
  int n = 1 + sym_choice("parameters", 3), k = 1 + sym_choice("points", 4); if (n * k > 6) return; const double* b = B[sym_choice("bounds", 3)]; bool maximize = sym_choice("maximize", 2);
  Log log; Fn f(&log); RandomSearch rs(k, b[0], b[1]); Pt start(n, 3.5), r = run(rs, f, start, maximize);
  sym_assert((int)log.p.size() == k, "not the configured number of points is evaluated"); for (size_t i = 0; i < log.p.size(); i++) { sym_assert((int)log.p[i].size() == n, "dimension"); sym_assert(inside(log.p[i], b[0], b[1]), "a point lies outside the bounds"); }
  best(log, log.p, r, maximize, f);
}
ENTRY(c22_nested) {
  int n = 1 + sym_choice("parameters", 2), k = 1 + sym_choice("points", n == 1 ? 3 : 2); const double* b = B[sym_choice("bounds", 2)]; bool maximize = sym_choice("maximize", 2);
  Log log; Fn f(&log); std::vector<Pt> ends; Hop hop(&ends); RandomSearch rs(k, b[0], b[1], &hop); Pt start(n, 3.5), r = run(rs, f, start, maximize);
  sym_assert((int)ends.size() == k, "not every point is optimised"); best(log, ends, r, maximize, f);
}
ENTRY(c22_empty) {
  Log log; Fn f(&log); std::vector<Pt> ends; Hop hop(&ends); bool nested = sym_choice("nested", 2); RandomSearch rs(0, 0, 1, nested ? &hop : 0); Pt start(1, 0.5);
  ContinuousParametersArray a(start); bool t = THROWS(rs.Optimize(f, &a, true)); sym_assert(t, "a search without points is not refused"); sym_assert(log.p.empty(), "evaluations"); sym_cover("refused");
}
extern "C" { extern int (*sym_rand_hook)(); }
static unsigned long long lcg = 1; static int next() { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return (int)(lcg >> 33); }
ENTRY(c22_many) {
  static const int K[] = {8, 17, 40, 100}; sym_rand_hook = next; int n = sym_choice("parameters", 2) ? 4 : 1, k = K[sym_choice("points", 4)], a = sym_choice("free", 12); if (a >= 4) a = k - 1 - (a - 4) * k / 9; spike.arm(a, 1); bool maximize = sym_choice("maximize", 2); Log log; Fn f(&log); RandomSearch rs(k, -1, 1); Pt start(n, 3.5), r = run(rs, f, start, maximize);
  sym_assert((int)log.p.size() == k, "not the configured number of points is evaluated"); for (size_t i = 0; i < log.p.size(); i++) sym_assert(inside(log.p[i], -1, 1), "a point lies outside the bounds"); best(log, log.p, r, maximize, f);
}
