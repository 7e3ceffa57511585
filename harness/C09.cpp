/*CHECK
{"sources": ["common", "src/optimization/genetic_algorithm/gen_mutator_base.cpp", "src/optimization/genetic_algorithm/linear_mutator.cpp"], "ubsan": true,
 "bounds": "every start and end rate in [0, 1]; 1, 2, 3, 4, 7 and 10 generations with every current generation, 1000 generations with 7 of them",
 "assumptions": ["the entries named real/round reason about reals (with rounding-error bounds) and compare within 1e-12"],
 "entries": [
  {"name": "c09_range", "opts": "overflow,ms=15000,feas=300", "covers": ["rate"], "bounds": "IEEE semantics"},
  {"name": "c09_ends", "opts": "overflow,ms=15000,feas=1000", "covers": ["first", "last"], "bounds": "IEEE semantics"},
  {"name": "c09_monotone", "opts": "round,overflow,ms=20000", "covers": ["pair"], "bounds": "consecutive generations, 1e-12 tolerance"},
  {"name": "c09_linear", "opts": "round,overflow,ms=20000", "covers": ["rate"], "bounds": "1e-12 tolerance"},
  {"name": "c09_ga", "opts": "overflow,feas=1000", "covers": ["run"], "bounds": "3 schedules through MutateChromosome for every generation of runs of 1..4 generations"}
 ]}
*/
#include "random_util.h"
#include <k52/optimization/linear_mutator.h>
using namespace k52::optimization;
struct Probe : public LinearMutator { Probe(double a, double b) : LinearMutator(a, b) {} double rate(int g, int n) { MutationContext c; c.current_generation = g; c.max_number_of_generations = n; ApplyNewMutationContext(c); return GetCurrentGenMutationProbability(); } };
static const int N[] = {1, 2, 3, 4, 7, 10, 1000}, L[] = {0, 1, 2, 499, 500, 998, 999};
static int gen(int n) { return n <= 10 ? sym_choice("generation", n) : L[sym_choice("generation", 7)]; }
ENTRY(c09_range) {
  double s = sym_double("start", 0, 1), e = sym_double("end", 0, 1); int n = N[sym_choice("generations", 7)], g = gen(n); Probe m(s, e); double p = m.rate(g, n); sym_observe("rate", p);
  sym_assert(sym_or(sym_and(s <= p, p <= e), sym_and(e <= p, p <= s)), "rate outside the interval of start and end rate"); sym_cover("rate");
}
ENTRY(c09_ends) {
  double s = sym_double("start", 0, 1), e = sym_double("end", 0, 1); int n = N[sym_choice("generations", 7)]; Probe m(s, e); sym_assert(m.rate(0, n) == s, "rate of the first generation is not the start rate"); sym_cover("first");
  if (n > 1) { sym_assert(m.rate(n - 1, n) == e, "rate of the last generation is not the end rate"); sym_cover("last"); }
}
ENTRY(c09_monotone) {
  double s = sym_double("start", 0, 1), e = sym_double("end", 0, 1); int n = N[sym_choice("generations", 7)], g = gen(n), h = g + 1; if (h == n) return; Probe m(s, e); double p = m.rate(g, n), q = m.rate(h, n);
  sym_assert(sym_or(s > e, p <= q + 1e-12), "rate falls although the end rate is the higher one"); sym_assert(sym_or(s < e, q <= p + 1e-12), "rate rises although the end rate is the lower one"); sym_cover("pair");
}
ENTRY(c09_linear) {
  double s = sym_double("start", 0, 1), e = sym_double("end", 0, 1); int n = N[1 + sym_choice("generations", 6)], g = gen(n); Probe m(s, e); double p = m.rate(g, n), w = s + (e - s) * ((double)g / (n - 1));
  sym_assert(sym_and(p - w <= 1e-12, w - p <= 1e-12), "rate is not the linear interpolation"); sym_cover("rate");
}
ENTRY(c09_ga) {
  static const double P[][2] = {{0.25, 0.75}, {1, 0}, {0.1, 0.3}}; int k = sym_choice("schedule", 3); LinearMutator m(P[k][0], P[k][1]); int n = 1 + sym_choice("generations", 4);
  for (int g = 0; g < n; g++) { MutationContext c; c.current_generation = g; c.max_number_of_generations = n; m.ApplyNewMutationContext(c); ChromosomeType x(1); sym_assert(!THROWS(m.MutateChromosome(&x)), "mutation fails"); } sym_cover("run");
}
