/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/discrete_objective_function.cpp", "src/optimization/discrete_optimizer.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/generation_statistics.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "an integer parameter with 3 feasible codes of 4, every pair of objectives with values in [0,1000], every start population, a mutator flipping any one bit of one individual or none, random draws from {0, the largest}, populations of 2 and 4, up to 3 generations, cache limits with room for none, one, two and any number of records",
 "assumptions": ["objective values are reals", "mutation and crossover retry at most a few times"],
 "entries": [
  {"name": "c14_values", "opts": "real,nomerge", "covers": ["fewer evaluations", "as many evaluations"], "bounds": "population 2, 3 generations, the same run without cache"},
  {"name": "c14_four", "opts": "real,nomerge", "covers": ["fewer evaluations"], "bounds": "population 4, 2 generations, the same run without cache"},
  {"name": "c14_again", "opts": "real,nomerge", "covers": ["second"], "bounds": "population 2, two runs with two objectives, 2 and 1 generations"},
  {"name": "c14_big", "opts": "real,nomerge", "covers": ["fewer evaluations"], "bounds": "populations of 6, 10, 20, 40, 0..2 elite pairs, 4 or 10 generations over 45 feasible codes of 64; draws and mutations fixed, the objective free at one code within four windows; cache of 1 MB or of a few entries"}
 ]}
*/
#define PROP 14
#include "ga_util.h"
static void pair(Cfg& c, int most) {
  static const double limit[4] = {1e-5, 1.5e-4, 3e-4, 1}; double f[3]; objective(f, "f"); sym_rand_hook = draw; k52::common::Random::Instance().GetRandomBool(); std::vector<int> st = startCodes(c.pop); c.cache = limit[c.pop == 4 ? 1 + 2 * sym_choice("limit", 2) : sym_choice("limit", 4)];
  GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new OneBit(most))); startFrom(*ga, st); tape.clear(); int r = finish(*ga, c, f); std::vector<std::vector<int> > g = generations; size_t n = evals.size();
  Cfg d = c; d.cache = 0; GeneticAlgorithm::shared_ptr plain = make(d, IMutator::shared_ptr(new OneBit(most))); startFrom(*plain, st); replaying = true; int q = finish(*plain, d, f);
  sym_assert(r == q, "the cache changes the result"); sym_assert(g == generations, "the cache changes the generations"); sym_assert(n <= evals.size(), "the cache costs evaluations"); if (n < evals.size()) sym_cover("fewer evaluations"); else sym_cover("as many evaluations");
}
ENTRY(c14_values) { drawLimit = 7; Cfg c; c.gens = 3; c.elite = 1; pair(c, 1000); }
ENTRY(c14_four) { drawLimit = 4; Cfg c; c.pop = 4; c.elite = 1 + sym_choice("elite pairs", 2); pair(c, 1); }
ENTRY(c14_again) {
  static const double limit[4] = {1e-5, 1.5e-4, 3e-4, 1}; drawLimit = 10; double f[3], g[3]; objective(f, "f"); objective(g, "g"); sym_rand_hook = draw; Cfg c; c.elite = sym_choice("elite pairs", 2); c.cache = limit[c.elite ? sym_choice("limit", 4) : 3];
  GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new OneBit(1))); startFrom(*ga, startCodes(2)); finish(*ga, c, f); startFrom(*ga, startCodes(2)); ending = true; finish(*ga, c, g); sym_cover("second");
}
ENTRY(c14_big) {
  Cfg c; bigSetup(c); double f[BIG]; bigObjective(f, "f"); c.elite = 1; c.cache = sym_choice("cache", 2) ? 0.0005 : 1; Cfg n = c; n.cache = 0; unsigned long long seed = lcg; k52::common::Random::Instance().GetRandomBool(); GeneticAlgorithm::shared_ptr a = make(c, IMutator::shared_ptr(new Several)), b = make(n, IMutator::shared_ptr(new Several)); lcg = seed; int r = bigRun(*a, c, f); std::vector<std::vector<int> > g = generations; size_t e = evals.size();
  lcg = seed; int q = bigRun(*b, n, f); sym_assert(r == q, "the cache changes the result"); sym_assert(g == generations, "the cache changes the course of the run"); sym_assert(e <= evals.size(), "the cache costs evaluations"); if (e < evals.size()) sym_cover("fewer evaluations");
}
