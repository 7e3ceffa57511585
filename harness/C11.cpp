/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/discrete_objective_function.cpp", "src/optimization/discrete_optimizer.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/generation_statistics.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "an integer parameter with 3 feasible codes of 4, every objective with values in [0,1000], every start population, a mutator flipping any one bit or none, random draws from {0, the middle, the largest}, populations of 2 and 4, 1 to 3 generations, with and without elitism and cache",
 "assumptions": ["objective values are reals", "mutation and crossover retry at most a few times"],
 "entries": [
  {"name": "c11_run", "opts": "real,nomerge", "covers": ["best early", "best late"], "bounds": "population 2, 2 generations, 3 draw values"},
  {"name": "c11_long", "opts": "real,nomerge", "covers": ["best early", "best late"], "bounds": "population 2, 3 generations, 2 draw values, at most one mutated individual per generation"},
  {"name": "c11_four", "opts": "real,nomerge", "covers": ["best early", "best late"], "bounds": "population 4, 2 generations, one elite pair or two, at most one mutated individual per generation"},
  {"name": "c11_refuse", "opts": "real,nomerge", "covers": ["minimise", "odd", "mutator"]},
  {"name": "c11_big", "opts": "real,nomerge", "covers": ["ran"], "bounds": "populations of 6, 10, 20, 40, 0..2 elite pairs, 4 or 10 generations over 45 feasible codes of 64; draws and mutations fixed, the objective free at one code within four windows"}
 ]}
*/
#define PROP 11
#include "ga_util.h"
static void search(const Cfg& c, int most = 1000) {
  double f[3]; objective(f, "f"); sym_rand_hook = draw; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new OneBit(most))); std::vector<int> st = startCodes(c.pop); startFrom(*ga, st); int r = finish(*ga, c, f);
  bool early = false; for (size_t i = 0; i < st.size(); i++) early |= st[i] == r; if (early) sym_cover("best early"); else sym_cover("best late");
}
ENTRY(c11_run) { drawKinds = 3; drawLimit = 7; Cfg c; c.elite = sym_choice("elite pairs", 2); search(c); }
ENTRY(c11_long) { drawLimit = 7; Cfg c; c.gens = 3; c.elite = sym_choice("elite pairs", 2); search(c, 1); }
ENTRY(c11_four) { drawLimit = 7; Cfg c; c.pop = 4; c.elite = 1 + sym_choice("elite pairs", 2); search(c, 1); }
ENTRY(c11_refuse) {
  Obj o; IntParameter p(LO, LO, HI); Cfg c; IMutator::shared_ptr m(new OneBit), none; double f[3]; objective(f, "f"); begin(c, f); people = std::vector<int>(2, LO);
  switch (sym_choice("what", 3)) {
    case 0: { GeneticAlgorithm::shared_ptr ga = make(c, m); sym_assert(THROWS(ga->Optimize(o, &p, false)), "minimising is not refused"); sym_assert(p.get_value() == LO, "a refused run changes the parameters"); sym_cover("minimise"); break; }
    case 1: sym_assert(!GeneticAlgorithm::Create(sym_choice("odd", 2) ? 3 : -2, 0, 1, m), "an odd or negative population is not refused"); sym_cover("odd"); break;
    default: sym_assert(!GeneticAlgorithm::Create(2, 0, 1, none) && !GeneticAlgorithm::Create(2, 0, 0, m), "no mutator or no generations are not refused"); sym_cover("mutator");
  }
}
ENTRY(c11_big) { Cfg c; bigSetup(c); double f[BIG]; bigObjective(f, "f"); GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new Several)); bigRun(*ga, c, f); sym_cover("ran"); }
