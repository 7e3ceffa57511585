/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/discrete_objective_function.cpp", "src/optimization/discrete_optimizer.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/generation_statistics.cpp", "src/optimization/genetic_algorithm/gen_mutator_base.cpp", "src/optimization/genetic_algorithm/linear_mutator.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "an integer parameter with 3 feasible codes of 4 and a pair of them, every objective with values in [0,1000], populations of 2, 1 to 3 generations, 64 random starts, random draws of the two extremes, with and without elitism; initial parameters with every int as value",
 "assumptions": ["objective values are reals", "mutation and crossover retry at most a few times"],
 "entries": [
  {"name": "c12_random", "opts": "real,nomerge", "covers": ["ran", "retried"], "bounds": "random start, 2 generations, one mutated individual per generation"},
  {"name": "c12_linear", "opts": "real,nomerge", "covers": ["ran"], "bounds": "the library's linear mutator, 2 generations"},
  {"name": "c12_pair", "opts": "real,nomerge", "covers": ["ran"], "bounds": "a composite of two parameters, 2 generations"},
  {"name": "c12_start", "opts": "real,nomerge", "covers": ["feasible", "refused"], "bounds": "two initial parameters with every int as value"},
  {"name": "c12_refuse", "opts": "real,nomerge", "covers": ["count", "kind", "meta"]},
  {"name": "c12_big", "opts": "real,nomerge", "covers": ["ran"], "bounds": "populations of 6, 10, 20, 40, 0..2 elite pairs, 4 or 10 generations over 45 feasible codes of 64; draws and mutations fixed, the objective free at one code within four windows"}
 ]}
*/
#define PROP 12
#include "ga_util.h"
#include <k52/optimization/linear_mutator.h>
ENTRY(c12_random) {
  drawLimit = 10; seedKinds = 64; Cfg c; c.elite = sym_choice("elite pairs", 2); double f[3]; objective(f, "f"); sym_rand_hook = draw; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new OneBit(1))); finish(*ga, c, f); sym_cover("ran"); if (draws > 4 && !c.elite) sym_cover("retried");
}
ENTRY(c12_linear) {
  drawLimit = 10; Cfg c; double f[3]; objective(f, "f"); sym_rand_hook = draw; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new LinearMutator(0.5, 0.25))); startFrom(*ga, startCodes(2)); finish(*ga, c, f); sym_cover("ran");
}
struct PairObj : public DiscreteObjectiveFunction {
  using DiscreteObjectiveFunction::operator();
  virtual double operator()(const IDiscreteParameters* const p) const { const CompositeDiscreteParameters* c = static_cast<const CompositeDiscreteParameters*>(p); int x[2]; for (size_t i = 0; i < 2; i++) { x[i] = valueOf(c->GetParameter(i)); sym_assert(feasible(x[i]), "the objective is asked for infeasible parameters"); } evals.push_back(0); ending = evals.size() == 4; return x[0] - LO + 2 * (x[1] - LO); }
  virtual PairObj* Clone() const { return new PairObj; }
};
ENTRY(c12_pair) {
  drawLimit = 8; seedKinds = 64; Cfg c; c.elite = 0; double f[3] = {0, 0, 0}; begin(c, f); c.callback = false; sym_rand_hook = draw; struct M : IMutator { int tries; M() : tries(0) {} void ApplyNewMutationContext(const MutationContext&) { tries = 0; } void MutateChromosome(Chr* h) { if (++tries > 3) sym_assume(0); int k = ending || tries == 2 ? 0 : pick("mutate", 5); if (k) (*h)[k - 1] = !(*h)[k - 1]; } };
  std::vector<IDiscreteParameters::shared_ptr> v; for (int i = 0; i < 2; i++) v.push_back(IDiscreteParameters::shared_ptr(new IntParameter(LO, LO, HI))); CompositeDiscreteParameters p; p.Initialize(v); PairObj o; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new M)); ga->Optimize(o, &p, true); sym_assert(p.CheckConstraints(), "the result is infeasible"); sym_assert(evals.size() == 4, "evaluations"); sym_cover("ran");
}
ENTRY(c12_start) {
  drawLimit = 8; Cfg c; c.gens = 1; double f[3]; objective(f, "f"); begin(c, f); sym_rand_hook = draw; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new NoChange)); std::vector<IDiscreteParameters::shared_ptr> v; int ok = 1;
  for (int i = 0; i < 2; i++) { IntParameter* q = new IntParameter(LO, LO, HI); v.push_back(IDiscreteParameters::shared_ptr(q)); int x = sym_int("value", -2147483647 - 1, 2147483647); q->set_value(x); ok = sym_and(ok, sym_and(LO <= x, x <= HI)); }
  ga->SetInitialParameters(v); Obj o; IntParameter p(LO, LO, HI); bool t = THROWS(ga->Optimize(o, &p, true)); sym_assert(t == !ok, "infeasible initial parameters are not refused, or feasible ones are"); if (t) { sym_assert(evals.empty(), "a refused run evaluates the objective"); sym_cover("refused"); } else sym_cover("feasible");
}
ENTRY(c12_refuse) {
  Cfg c; double f[3]; objective(f, "f"); begin(c, f); GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new NoChange)); std::vector<IDiscreteParameters::shared_ptr> v; int what = sym_choice("what", 3), bad = sym_choice("which", 2); IntParameter p(LO, LO, HI);
  for (int i = 0; i < 2; i++) if (what == 0) { if (bad) v.push_back(IDiscreteParameters::shared_ptr(new IntParameter(LO, LO, HI))); } else if (i != bad) v.push_back(IDiscreteParameters::shared_ptr(new IntParameter(LO, LO, HI))); else if (what == 1) v.push_back(IDiscreteParameters::shared_ptr(new DoubleParametersArray(0, 3, 1, 1))); else v.push_back(IDiscreteParameters::shared_ptr(sym_choice("bound", 2) ? new IntParameter(LO, LO, HI + 1) : new IntParameter(LO + 1, LO + 1, HI)));
  if (what == 0 && bad) v.push_back(v[0]);
  ga->SetInitialParameters(v); Obj o; sym_assert(THROWS(ga->Optimize(o, &p, true)), "unsuitable initial parameters are not refused"); sym_assert(evals.empty(), "a refused run evaluates the objective"); sym_cover(what == 0 ? "count" : what == 1 ? "kind" : "meta");
}
ENTRY(c12_big) { Cfg c; bigSetup(c); double f[BIG]; bigObjective(f, "f"); GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new Several)); bigRun(*ga, c, f); sym_cover("ran"); }
