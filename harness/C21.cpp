/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/grid_search.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/discrete_objective_function.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "1 to 3 parameters, 1 to 9 grid nodes in all, both senses, every objective (an uninterpreted function with finite values); bounds with and without a node at the upper end; every start and, for one parameter, every width that gives up to 4 nodes",
 "assumptions": ["dyadic bounds and steps, real arithmetic"],
 "entries": [
  {"name": "c21_grid", "opts": "real,nomerge", "covers": ["best first", "best later"], "bounds": "1..3 parameters, up to 9 nodes"},
  {"name": "c21_width", "opts": "real,nomerge", "covers": ["node at the bound", "no node at the bound"], "bounds": "1 parameter, every upper bound up to 4 steps away, an identity objective"},
  {"name": "c21_again", "opts": "real,nomerge", "covers": ["second"], "bounds": "one optimizer used twice with two objectives, 3 nodes"},
  {"name": "c21_refuse", "opts": "real", "covers": ["refused"], "bounds": "every upper bound below the lower one"},
  {"name": "c21_many", "opts": "real", "covers": ["done"], "bounds": "40 nodes on a line, 36 nodes in the plane, the best one anywhere with a free value"}
 ]}
*/
#include <k52/optimization/grid_search.h>
#include "opt_util.h"
static Pt grid(GridSearch& g, const ContinuousObjectiveFunction& f, const Pt& start, bool maximize) { ContinuousParametersArray a(start); static_cast<IOptimizer&>(g).Optimize(f, &a, maximize); return a.GetValues(); }
static bool node(int m, double lo, double step, const Pt& p) { for (size_t i = 0; i < p.size(); i++) { bool ok = false; for (int k = 0; k < m; k++) ok |= p[i] == lo + k * step; if (!ok) return false; } return true; }
static void all(int n, int m, double lo, double step, const Log& log, const Pt& r, double s, Fn& f) {
  size_t total = 1; for (int i = 0; i < n; i++) total *= m;
  for (size_t i = 0; i < total; i++) { Pt q(n); size_t t = i; for (int j = 0; j < n; j++) { q[j] = lo + (t % m) * step; t /= m; } sym_assert(member(log.p, q), "a grid node is not visited"); sym_assert(!(s * f.at(q) < s * f.at(r)), "a grid node is better than the result"); }
  for (size_t i = 0; i < log.p.size(); i++) { sym_assert((int)log.p[i].size() == n, "dimension"); sym_assert(node(m, lo, step, log.p[i]), "a point off the grid is visited"); }
  sym_assert(member(log.p, r), "the result was not visited");
}
ENTRY(c21_grid) {
  static const struct { int n, m; double lo, hi, step; } c[] = {{1, 1, 0, 0, 1}, {1, 2, 0, 1, 1}, {1, 5, -1, 1, 0.5}, {1, 4, 2, 3.75, 0.5}, {2, 1, 1, 1.25, 0.5}, {2, 2, -1, 0, 1}, {2, 3, -1, 1.5, 1}, {3, 2, 0, 0.25, 0.25}, {3, 1, 4, 4, 0.125}};
  int k = sym_choice("grid", 9); bool maximize = sym_choice("maximize", 2); Log log; Fn f(&log); GridSearch g(c[k].step, c[k].lo, c[k].hi); Pt start(c[k].n, sym_double("start", -100, 100));
  Pt r = grid(g, f, start, maximize); all(c[k].n, c[k].m, c[k].lo, c[k].step, log, r, maximize ? -1 : 1, f); if (same(r, Pt(c[k].n, c[k].lo))) sym_cover("best first"); else sym_cover("best later");
}
struct Id : ContinuousObjectiveFunction { Log* log; explicit Id(Log* l) : log(l) {} virtual double operator()(const Pt& x) const { log->p.push_back(x); return x[0]; } using ContinuousObjectiveFunction::operator(); virtual Id* Clone() const { return new Id(log); } };
ENTRY(c21_width) {
  double lo = sym_double("lower", -8, 8), w = sym_double("width", 0, 4), step = sym_choice("step", 2) ? 2 : 1; bool maximize = sym_choice("maximize", 2);
  Log log; Id f(&log); GridSearch g(step, lo, lo + w); Pt r = grid(g, f, Pt(1, 0.), maximize); size_t n = log.p.size(); sym_assert(n >= 1, "nothing is visited");
  for (size_t i = 0; i < n; i++) { sym_assert(inside(log.p[i], lo, lo + w), "a point outside the bounds is visited"); }
  for (int i = 0; i <= 4; i++) if (i * step <= w) sym_assert(member(log.p, Pt(1, lo + i * step)), "a grid node is not visited");
  double best = lo; for (int i = 0; i <= 4; i++) if (i * step <= w) best = lo + i * step; sym_assert(r[0] == (maximize ? best : lo), "the result is not the best node"); if (best == lo + w) sym_cover("node at the bound"); else sym_cover("no node at the bound");
}
ENTRY(c21_again) {
  GridSearch g(1, 0, 2); Log log, log2; Fn f(&log), h(&log2, false, -1e6, 1e6, "h"); Pt r = grid(g, f, Pt(1, 1.), true); all(1, 3, 0, 1, log, r, -1, f); bool m2 = sym_choice("maximize", 2); Pt q = grid(g, h, Pt(1, 1.), m2); all(1, 3, 0, 1, log2, q, m2 ? -1 : 1, h); sym_cover("second");
}
ENTRY(c21_refuse) {
  double lo = sym_double("lower", -8, 8), hi = sym_double("upper", -8, 8); sym_assume(hi < lo); Log log; Fn f(&log); GridSearch g(1, lo, hi); ContinuousParametersArray a(Pt(1, 0.)); sym_assert(THROWS(g.Optimize(f, &a, true)), "reversed bounds are not refused"); sym_assert(log.p.empty(), "evaluations"); sym_cover("refused");
}
struct Peak : ContinuousObjectiveFunction { Pt at; double v; Log* log; Peak(const Pt& at, double v, Log* l) : at(at), v(v), log(l) {} virtual double operator()(const Pt& x) const { log->p.push_back(x); return same(x, at) ? v : x[0] / 64; } using ContinuousObjectiveFunction::operator(); virtual Peak* Clone() const { return new Peak(at, v, log); } };
ENTRY(c21_many) {
  int d = 1 + sym_choice("dimension", 2), m = d == 1 ? 40 : 6, k = sym_choice("best", d == 1 ? 40 : 36); bool maximize = sym_choice("maximize", 2); Pt at; for (int i = 0, t = k; i < d; i++, t /= m) at.push_back(t % m * 0.5 - 3); double v = sym_double("value", 10, 20); if (!maximize) v = -v; Log log; Peak f(at, v, &log); GridSearch g(0.5, -3, -3 + 0.5 * (m - 1)); Pt r = grid(g, f, Pt(d, 0.), maximize);
  for (int i = 0; i < (d == 1 ? m : m * m); i++) { Pt q; for (int j = 0, t = i; j < d; j++, t /= m) q.push_back(t % m * 0.5 - 3); sym_assert(member(log.p, q), "a grid node is not visited"); } sym_assert(same(r, at), "a grid node is better than the result"); sym_cover("done");
}
