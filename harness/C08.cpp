/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/gen_mutator_base.cpp", "src/optimization/genetic_algorithm/linear_mutator.cpp", "src/optimization/genetic_algorithm/flip_bit_mutator.cpp"], "ubsan": true,
 "bounds": "chromosomes of up to 8 genes with every bit pattern, every random draw, every generation number up to 2^20; flip-bit mutator over 8 (thorough 12) genes in two calls for 5 probabilities; every double as a probability",
 "entries": [
  {"name": "c08_one", "opts": "overflow", "covers": ["flipped"], "bounds": "probability 1 throughout"},
  {"name": "c08_zero", "opts": "overflow,ms=15000", "covers": ["kept"], "bounds": "probability 0 throughout"},
  {"name": "c08_length", "opts": "overflow,ms=15000,feas=1000", "covers": ["mutated"], "bounds": "4 schedules, 0..3 genes"},
  {"name": "c08_both", "opts": "overflow,ms=8000,feas=4000", "covers": ["mutated"], "bounds": "probability 1/2: each of 3 genes may be flipped alone"},
  {"name": "c08_accept_linear", "opts": "overflow", "covers": ["accepted", "rejected"], "bounds": "every pair of doubles"},
  {"name": "c08_accept_flip", "opts": "overflow,ms=8000,feas=1000", "covers": ["accepted", "rejected"], "bounds": "every double, exact for > 1/2, <= 0 and NaN; accepted in [1e-9, 1/2]"},
  {"name": "c08_gaps", "opts": "overflow", "covers": ["flip"], "bounds": "5 probabilities, 8 genes over two calls"},
  {"name": "c08_gaps_long", "opts": "overflow", "tier": "thorough", "covers": ["flip"], "bounds": "5 probabilities, 12 genes over two calls"},
  {"name": "c08_gap_patterns", "opts": "overflow", "covers": ["tried"], "bounds": "2 probabilities, every pattern of 6 genes the longest gap allows can occur"},
  {"name": "c08_individual", "opts": "overflow", "covers": ["mutated"], "bounds": "individual of 5 feasible genes, probability 1"},
  {"name": "c08_long", "opts": "overflow", "covers": ["all", "none"], "bounds": "chromosomes of 9, 31, 32, 33, 64, 65, 100 genes, probability 0 and 1"}
 ]}
*/
#include "params_util.h"
#include "random_util.h"
#include <k52/optimization/individual.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/flip_bit_mutator.h>
static void context(IMutator& m) { MutationContext c; c.max_number_of_generations = sym_int("generations", 1, 1 << 20); c.current_generation = sym_int("generation", 0, 1 << 20); sym_assume(c.current_generation < c.max_number_of_generations); m.ApplyNewMutationContext(c); }
ENTRY(c08_one) {
  LinearMutator m(1, 1); MutationContext c; static const int G[][2] = {{0, 1}, {0, 2}, {1, 2}, {3, 10}, {99, 100}, {1 << 19, 1 << 20}}; int g = sym_choice("context", 6); c.current_generation = G[g][0]; c.max_number_of_generations = G[g][1]; m.ApplyNewMutationContext(c);
  Chr a = symBits(sym_choice("length", 9)), b(a); m.MutateChromosome(&b); int ok = b.size() == a.size(); sym_assert(ok, "mutation changes the length"); for (size_t i = 0; i < a.size(); i++) ok = sym_and(ok, (bool)a[i] != (bool)b[i]); sym_assert(ok, "a gene survives mutation with probability 1"); sym_cover("flipped");
}
ENTRY(c08_zero) {
  LinearMutator m(0, 0); MutationContext c; static const int G[][2] = {{0, 1}, {0, 2}, {1, 2}, {3, 10}}; int g = sym_choice("context", 4); c.current_generation = G[g][0]; c.max_number_of_generations = G[g][1]; m.ApplyNewMutationContext(c);
  Chr a = symBits(sym_choice("length", 7)), b(a); m.MutateChromosome(&b); sym_assert(sameBits(a, b), "a gene is flipped with probability 0"); sym_cover("kept");
}
ENTRY(c08_length) {
  static const double P[][2] = {{0.5, 0.1}, {0, 1}, {1, 0}, {0.3, 0.3}}; int k = sym_choice("schedule", 4); LinearMutator m(P[k][0], P[k][1]); MutationContext c; c.current_generation = sym_choice("generation", 3); c.max_number_of_generations = 3; m.ApplyNewMutationContext(c);
  Chr a = symBits(sym_choice("length", 4)), b(a); bool t = THROWS(m.MutateChromosome(&b)); sym_assert(!t, "mutation fails"); sym_assert(a.size() == b.size(), "mutation changes the length"); sym_cover("mutated");
}
ENTRY(c08_both) {
  LinearMutator m(0.5, 0.5); MutationContext c; c.current_generation = 0; c.max_number_of_generations = 2; m.ApplyNewMutationContext(c); int i = sym_choice("gene", 3); Chr a(3), b(3); m.MutateChromosome(&b); sym_cover("mutated");
  std::string l = "only gene " + std::to_string(i); sym_cover(("expect:" + l).c_str()); int ok = 1; for (int k = 0; k < 3; k++) ok = sym_and(ok, (bool)b[k] == (k == i)); sym_assume(ok); sym_cover(l.c_str());
}
ENTRY(c08_accept_linear) {
  double p = sym_double_any("start"), q = sym_double_any("end"); int ok = sym_and(sym_and(0 <= p, p <= 1), sym_and(0 <= q, q <= 1));
  bool t = THROWS(LinearMutator m(p, q)); sym_assert((t ? 1 : 0) == !ok, "accepted probabilities are not exactly [0, 1]"); if (t) sym_cover("rejected"); else sym_cover("accepted");
}
ENTRY(c08_accept_flip) {
  double p = sym_double_any("p"); int bad = sym_or(!(p > 0), p > 0.5), good = sym_and(1e-9 <= p, p <= 0.5);
  bool t = THROWS(FlipBitMutator m(p)); sym_assert(sym_or(!bad, t), "a probability outside (0, 1/2] is accepted"); sym_assert(sym_or(!good, !t), "a probability of (0, 1/2] is rejected"); if (t) sym_cover("rejected"); else sym_cover("accepted");
}
static void gaps(int n1, int n2) { // at most floor(1/p) - 1 genes in a row stay unflipped, across calls as well
  static const double P[] = {0.5, 0.4, 0.3, 0.25, 0.2}; static const int M[] = {1, 1, 2, 3, 4}; int k = sym_choice("p", 5); FlipBitMutator m(P[k]);
  Chr a(n1), b(n2); m.MutateChromosome(&a); m.MutateChromosome(&b); sym_assert((int)a.size() == n1 && (int)b.size() == n2, "mutation changes the length"); int gap = 0, ok = 1;
  for (int i = 0; i < n1 + n2; i++) { bool f = i < n1 ? a[i] : b[i - n1]; gap = f ? 0 : gap + 1; ok = sym_and(ok, gap <= M[k]); if (f) sym_cover("flip"); } sym_assert(ok, "more genes in a row stay unmutated than the probability allows");
}
ENTRY(c08_gaps) { gaps(5, 3); }
ENTRY(c08_gaps_long) { gaps(7, 5); }
ENTRY(c08_gap_patterns) { // after any history a gene can be flipped, and unless the longest gap is used up it can be kept
  int w = sym_choice("p", 2), m = w ? 3 : 1; int pat = sym_choice("pattern", 64), gap = 0; for (int i = 0; i < 6; i++) { gap = pat >> i & 1 ? 0 : gap + 1; if (gap > m) { sym_cover("tried"); return; } }
  FlipBitMutator f(w ? 0.25 : 0.5); Chr a(4), b(2); f.MutateChromosome(&a); f.MutateChromosome(&b); sym_cover("tried");
  std::string l = "genes " + std::to_string(pat) + (w ? " at 1/4" : " at 1/2"); sym_cover(("expect:" + l).c_str()); int ok = 1; for (int i = 0; i < 6; i++) ok = sym_and(ok, (bool)(i < 4 ? a[i] : b[i - 4]) == (bool)(pat >> i & 1)); sym_assume(ok); sym_cover(l.c_str());
}
ENTRY(c08_individual) {
  IntParameter p(sym_int("v", 0, 31), 0, 31); Individual a(&p); LinearMutator* l = new LinearMutator(1, 1); IMutator::shared_ptr m(l); MutationContext c; c.current_generation = 0; c.max_number_of_generations = 5; m->ApplyNewMutationContext(c);
  Chr b = a.GetChromosome(); int r = a.Mutate(m); sym_assert(r == 0, "feasible mutation counted as invalid"); int ok = a.GetChromosome().size() == 5; for (size_t i = 0; i < 5; i++) ok = sym_and(ok, (bool)b[i] != (bool)a.GetChromosome()[i]); sym_assert(ok, "a gene survives mutation with probability 1");
  sym_assert(static_cast<const IntParameter*>(a.GetParametersAccordingToChromosome())->get_value() == 31 - p.get_value(), "parameters after mutation"); sym_cover("mutated");
}
ENTRY(c08_long) {
  static const int N[] = {9, 31, 32, 33, 64, 65, 100}; int n = N[sym_choice("length", 7)], p = sym_choice("all", 2); LinearMutator m(p, p); MutationContext c; c.current_generation = 1; c.max_number_of_generations = 3; m.ApplyNewMutationContext(c); Chr a = symBits(n), b(a); m.MutateChromosome(&b); int ok = b.size() == a.size(); sym_assert(ok, "mutation changes the length"); for (int i = 0; i < n; i++) ok = sym_and(ok, p ? (bool)a[i] != (bool)b[i] : (bool)a[i] == (bool)b[i]); sym_assert(ok, p ? "a gene survives probability 1" : "a gene is flipped with probability 0"); sym_cover(p ? "all" : "none");
}
