/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/conjugate_gradient_method.cpp", "src/optimization/steepest_descent_method.cpp"], "ubsan": true,
 "bounds": "quadratics a(x-c)^2 (1 and 2 parameters) with a of a small family and every c in [-2,2], both senses, starts at 0, one to three iterations",
 "assumptions": ["real arithmetic"],
 "entries": [
  {"name": "c25_conjugate", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "conjugate gradients, 1 parameter"},
  {"name": "c25_two", "opts": "real,nomerge,ms=20000", "covers": ["moved"], "bounds": "conjugate gradients, 2 parameters; one iteration for every (c, d), two for every c"},
  {"name": "c25_steepest", "opts": "real,nomerge", "covers": ["moved", "stayed"], "bounds": "steepest descent, 1 parameter"}
  ,{"name": "c25_plane", "opts": "real,nomerge,ms=20000", "covers": ["moved"], "bounds": "steepest descent, 2 parameters, one iteration"},
  {"name": "c25_further", "opts": "real,nomerge,ms=20000", "covers": ["moved"], "bounds": "steepest descent, 1 parameter, two iterations"}
 ]}
*/
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include "opt_util.h"
struct Quad : ContinuousObjectiveFunction {
  const double* a; const double* c; double sign; Quad(const double* a_, const double* c_, double s) : a(a_), c(c_), sign(s) {}
  using ContinuousObjectiveFunction::operator();
  double at(const Pt& x) const { double v = 0; for (size_t i = 0; i < x.size(); i++) v += a[i] * (x[i] - c[i]) * (x[i] - c[i]); return v; }
  virtual double operator()(const Pt& x) const { return sign * at(x); }
  virtual Quad* Clone() const { return new Quad(a, c, sign); }
};
static const double A[3] = {0.5, 1, 2};
ENTRY(c25_conjugate) {
  double a = A[sym_choice("a", 3)], c = sym_double("c", -2, 2), prec = 0.0009765625; bool mx = sym_choice("maximize", 2); Quad q(&a, &c, mx ? -1 : 1); ConjugateGradientMethod m(prec, sym_choice("increment", 2) ? 0.5 : 0.0009765625, 3); Pt st(1, 0.), r;
  bool t = THROWS(r = run(m, q, st, mx)); sym_assert(!t, "the search fails"); if (t) return; sym_assert(r.size() == 1, "dimension"); sym_assert(!(q.at(r) > q.at(st)), "the result is worse than the start");
  if (same(r, st)) sym_cover("stayed"); else sym_cover("moved"); sym_assert(2 * a * (r[0] - c) <= prec, "no minimum"); sym_assert(-2 * a * (r[0] - c) <= prec, "no minimum");
}
ENTRY(c25_steepest) {
  double a = A[sym_choice("a", 3)], c = sym_double("c", -2, 2), prec = 0.125; bool mx = sym_choice("maximize", 2); Quad q(&a, &c, mx ? -1 : 1); SteepestDescentMethod m(0.5, 1, prec); Pt st(1, 0.), r;
  bool t = THROWS(r = run(m, q, st, mx)); sym_assert(!t, "the search fails"); if (t) return; sym_assert(r.size() == 1, "dimension"); sym_assert(!(q.at(r) > q.at(st)), "the result is worse than the start");
  if (same(r, st)) { sym_cover("stayed"); sym_assert(sym_and(2 * a * c <= prec, -2 * a * c <= prec), "the search stays although it is not at the minimum"); } else sym_cover("moved");
}
ENTRY(c25_two) {
  static const double F[3][2] = {{1, 2}, {1, 1}, {0.5, 4}}; const double* a = F[sym_choice("a", 3)]; int both = sym_choice("both", 2); double c[2] = {sym_double("c", -2, 2), both ? sym_double("d", -2, 2) : 0.5}, prec = 0.0009765625; bool mx = sym_choice("maximize", 2); Quad q(a, c, mx ? -1 : 1); ConjugateGradientMethod m(prec, 0.5, both ? 2 : 3); Pt st(2, 0.), r;
  bool t = THROWS(r = run(m, q, st, mx)); sym_assert(!t, "the search fails"); if (t) return; sym_assert(r.size() == 2, "dimension"); sym_assert(!(q.at(r) > q.at(st)), "the result is worse than the start"); sym_cover("moved");
  if (!both) for (int i = 0; i < 2; i++) { sym_assert(2 * a[i] * (r[i] - c[i]) <= prec, "no minimum"); sym_assert(-2 * a[i] * (r[i] - c[i]) <= prec, "no minimum"); }
}
ENTRY(c25_plane) {
  static const double F[2][2] = {{1, 2}, {0.5, 1}}; const double* a = F[sym_choice("a", 2)]; double c[2] = {sym_double("c", -2, 2), 0.25}, prec = 0.25; bool mx = sym_choice("maximize", 2); Quad q(a, c, mx ? -1 : 1); SteepestDescentMethod m(0.5, 1, prec); Pt st(2, 0.), r;
  bool t = THROWS(r = run(m, q, st, mx)); sym_assert(!t, "the search fails"); if (t) return; sym_assert(r.size() == 2, "dimension"); sym_assert(!(q.at(r) > q.at(st)), "the result is worse than the start"); sym_assert(!same(r, st), "the search stays although it is not at the minimum"); sym_cover("moved");
}
ENTRY(c25_further) {
  double a = 1, c = sym_double("c", -2, 2), prec = 0.5; bool mx = sym_choice("maximize", 2); Quad q(&a, &c, mx ? -1 : 1); SteepestDescentMethod m(0.5, 2, prec); Pt st(1, 0.), r;
  bool t = THROWS(r = run(m, q, st, mx)); sym_assert(!t, "the search fails"); if (t) return; sym_assert(r.size() == 1, "dimension"); sym_assert(!(q.at(r) > q.at(st)), "the result is worse than the start"); sym_cover("moved");
}
