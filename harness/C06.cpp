/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/genetic_algorithm/individual.cpp"], "ubsan": true,
 "bounds": "two individuals over an integer parameter with infeasible chromosomes (2 bits, offset 3 invalid), start values symbolic, sequences of 3 (thorough 4) operations out of 8 with every random draw, at most 1 failed attempt per retry loop; adopted real parameters in error-bounded reals",
 "assumptions": ["an operation that retries until its result is feasible fails at most once (the library sets no limit)"],
 "entries": [
  {"name": "c06_ops", "opts": "overflow", "covers": ["crossed", "crossed invalid", "mutated", "retried", "random", "fitness", "copied"], "bounds": "3 operations"},
  {"name": "c06_ops4", "tier": "thorough", "replaces": "c06_ops", "opts": "overflow", "covers": ["crossed"], "bounds": "4 operations"},
  {"name": "c06_adopt_double", "opts": "round,overflow", "covers": ["adopted"], "bounds": "3 grids, every value in the bounds"},
  {"name": "c06_adopt_int", "opts": "overflow", "covers": ["adopted", "copied"], "bounds": "all values of 3 intervals"},
  {"name": "c06_unused", "opts": "overflow", "covers": ["done"]}
 ]}
*/
#include "params_util.h"
#include "random_util.h"
#include <k52/optimization/individual.h>
static const int LO = -2, HI = 0; // 2 bits, offset 3 infeasible
struct SymMutator : public IMutator { int calls, limit; SymMutator() : calls(0), limit(2) {} void ApplyNewMutationContext(const MutationContext&) {}
  void MutateChromosome(ChromosomeType* c) { if (++calls > limit) sym_assume(0); for (size_t i = 0; i < c->size(); i++) if (sym_bool("flip")) (*c)[i] = !(*c)[i]; } };
static int randLimit = 0; static int hook() { if (--randLimit < 0) sym_assume(0); return sym_int("rand", 0, RAND_MAX); }
struct Ghost { bool known; Chr chr; double f; Ghost() : known(false), f(0) {} };
static void check(const Individual& a, const Ghost& g) {
  const Chr& c = a.GetChromosome(); const IntParameter* p = static_cast<const IntParameter*>(a.GetParametersAccordingToChromosome());
  IntParameter q(LO, HI); sym_assert(c.size() == q.GetChromosomeSize(), "chromosome length changed"); q.SetFromChromosome(c.begin(), c.end());
  sym_assert(p->get_value() == q.get_value(), "parameters are not what the chromosome encodes");
  int in = sym_and(LO <= q.get_value(), q.get_value() <= HI); sym_assert((a.IsValid() ? 1 : 0) == in, "constraint verdict is not that of the parameters");
  bool t = false; double f = -1; try { f = a.get_fitness(); } catch (const std::exception&) { t = true; }
  sym_assert(t == !a.HasFitness(), "fitness handed out although unknown, or withheld although known");
  if (a.HasFitness()) { sym_assert(g.known, "individual has a fitness nobody gave it"); sym_assert(f == g.f, "another fitness than the one set"); sym_assert(sameBits(c, g.chr), "individual kept the fitness of what it was before"); }
}
static void ops(int n) {
  sym_rand_hook = hook; randLimit = 1 + 2;
  IntParameter pa(sym_int("a", LO, HI), LO, HI), pb(sym_int("b", LO, HI), LO, HI);
  Individual a(&pa), b; b.Initialize(&pb); Ghost ga, gb; check(a, ga); check(b, gb);
  for (int i = 0; i < n; i++) {
    switch (sym_choice("op", 7)) {
      case 0: { randLimit = 1; bool r = a.Crossover(&b); sym_assert(!a.HasFitness() && !b.HasFitness(), "fitness survives a crossover"); int ok = sym_and(a.IsValid(), b.IsValid()); sym_assert((r ? 1 : 0) == ok, "crossover reports validity wrongly"); sym_cover("crossed"); if (!r) sym_cover("crossed invalid"); break; }
      case 1: { SymMutator* m = new SymMutator; IMutator::shared_ptr p(m); int r = a.Mutate(p); sym_assert(a.IsValid(), "mutation leaves an infeasible individual"); sym_assert(r == m->calls - 1, "number of invalid chromosomes wrong"); sym_assert(!a.HasFitness(), "fitness survives a mutation"); sym_cover("mutated"); if (r) sym_cover("retried"); break; }
      case 2: { randLimit = 1; int r = a.SetRandomChromosome(); if (r > 1) sym_assume(0); sym_assert(a.IsValid(), "random individual is infeasible"); sym_assert(!a.HasFitness(), "fitness survives a random chromosome"); sym_cover("random"); break; }
      case 3: ga.f = sym_double("fitness", 0, 1e9); a.set_fitness(ga.f); ga.known = true; ga.chr = a.GetChromosome(); sym_assert(a.HasFitness(), "fitness not stored"); sym_cover("fitness"); break;
      case 4: gb.f = sym_double("fitness", 0, 1e9); b.set_fitness(gb.f); gb.known = true; gb.chr = b.GetChromosome(); break;
      case 5: b = a; gb = ga; sym_assert(sameBits(a.GetChromosome(), b.GetChromosome()), "copy has another chromosome"); sym_assert(a.HasFitness() == b.HasFitness(), "copy differs in having a fitness"); sym_assert(a.GetParametersAccordingToChromosome() != b.GetParametersAccordingToChromosome(), "copy shares its parameters"); sym_cover("copied"); break;
      case 6: { Individual c(b); check(c, gb); SymMutator* m = new SymMutator; m->limit = 1; IMutator::shared_ptr p(m); c.Mutate(p); break; } // mutating a copy must not show in b
    }
    check(a, ga); check(b, gb);
  }
  sym_assert(pa.get_value() >= LO && pb.get_value() >= LO, "the adopted parameters object was modified");
}
ENTRY(c06_ops) { ops(3); }
ENTRY(c06_ops4) { ops(4); }
ENTRY(c06_adopt_double) {
  static const double D[][3] = {{0, 1, 0.3}, {-5, 5, 1}, {1, 2, 0.25}}; const double* d = D[sym_choice("conf", 3)];
  DoubleParametersArray p(d[0], d[1], d[2], 1); std::vector<double> v(1); v[0] = sym_double("value", d[0], d[1]); p.SetValues(v);
  Individual a(&p); const DoubleParametersArray* q = static_cast<const DoubleParametersArray*>(a.GetParametersAccordingToChromosome());
  DoubleParametersArray r(d[0], d[1], d[2], 1); const Chr& c = a.GetChromosome(); r.SetFromChromosome(c.begin(), c.end()); double e = r.get_values()[0] - q->get_values()[0], st = p.get_actual_precision();
  sym_assert(sym_and(-1e-6 * st <= e, e <= 1e-6 * st), "parameters are not what the chromosome encodes"); double m = v[0] - q->get_values()[0]; sym_assert(sym_and(-1.00001 * st <= m, m <= 1.00001 * st), "adopted value further away than a grid step");
  sym_assert(p.get_values()[0] == v[0], "adopting modified the parameters object"); sym_cover("adopted");
}
ENTRY(c06_adopt_int) {
  static const int I[][2] = {{-3, 7}, {0, 0}, {-1000, 100}}; const int* r = I[sym_choice("range", 3)]; int v = sym_int("value", r[0], r[1]);
  IntParameter* p = new IntParameter(v, r[0], r[1]); Individual* a = new Individual(p); p->set_value(r[0]); delete p;
  sym_assert(static_cast<const IntParameter*>(a->GetParametersAccordingToChromosome())->get_value() == v, "individual does not own its parameters"); sym_assert(!a->HasFitness(), "new individual has a fitness"); sym_cover("adopted");
  Individual b(*a); Individual c; c = *a; delete a;
  sym_assert(static_cast<const IntParameter*>(b.GetParametersAccordingToChromosome())->get_value() == v, "copy does not outlive its original"); Chr d = chrOf(*c.GetParametersAccordingToChromosome()); sym_assert(sameBits(d, b.GetChromosome()), "copies differ"); c = c; sym_assert(sameBits(d, c.GetChromosome()), "self-assignment"); sym_cover("copied");
}
ENTRY(c06_unused) {
  Individual a; IntParameter p(0, 3); Individual b(&p); SymMutator* m = new SymMutator; IMutator::shared_ptr mp(m);
  sym_assert(THROWS(a.GetChromosome()), "uninitialised individual has a chromosome"); sym_assert(THROWS(a.GetParametersAccordingToChromosome()), "uninitialised individual has parameters"); sym_assert(THROWS(a.SetRandomChromosome()), "random"); sym_assert(THROWS(a.Crossover(&b)), "crossover"); sym_assert(THROWS(a.Mutate(mp)), "mutate"); sym_assert(THROWS(a.IsValid()), "valid"); sym_assert(THROWS(a.get_fitness()), "fitness"); sym_assert(!a.HasFitness(), "fitness");
  b.set_fitness(1); double f = sym_double("f", -1e6, -1e-6); sym_assert(THROWS(b.set_fitness(f)), "a negative fitness is accepted"); sym_assert(b.get_fitness() == 1, "a rejected fitness is stored");
  sym_assert(THROWS(b.Initialize(&p)), "an individual is initialised twice"); sym_cover("done");
}
