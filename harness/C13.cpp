/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/discrete_objective_function.cpp", "src/optimization/discrete_optimizer.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/generation_statistics.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "an integer parameter with 3 feasible codes of 4, every objective and every stop criterion with values in [0,1000], every start population, a mutator flipping any one bit of one individual or none, random draws from {0, the largest}, populations of 2 and 4, 1 to 3 generations, with and without elitism and cache",
 "assumptions": ["objective values are reals", "mutation and crossover retry at most a few times"],
 "entries": [
  {"name": "c13_stop", "opts": "real,nomerge", "covers": ["stopped at once", "stopped later", "ran to the end"], "bounds": "population 2, 1..3 generations"},
  {"name": "c13_four", "opts": "real,nomerge", "covers": ["stopped at once", "stopped later", "ran to the end"], "bounds": "population 4, 2 generations"},
  {"name": "c13_quiet", "opts": "real,nomerge", "covers": ["stopped", "ran to the end"], "bounds": "population 2, 1..3 generations, without a callback"},
  {"name": "c13_big", "opts": "real,nomerge", "covers": ["ran", "stopped"], "bounds": "populations of 6, 10, 20, 40, 0..2 elite pairs, 4 or 10 generations over 45 feasible codes of 64; draws and mutations fixed, the objective free at one code within four windows; stopping at 31 or never"}
 ]}
*/
#define PROP 13
#include "ga_util.h"
static void search(Cfg& c) {
  double f[3]; objective(f, "f"); c.stop = sym_double("stop", 0, 1000); sym_rand_hook = draw; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new OneBit(1))); startFrom(*ga, startCodes(c.pop)); finish(*ga, c, f);
  if (!stopped) sym_cover("ran to the end"); else if (callbacks == 1) sym_cover("stopped at once"); else sym_cover("stopped later");
}
ENTRY(c13_stop) { drawLimit = 7; Cfg c; c.gens = 1 + sym_choice("generations", 3); c.elite = sym_choice("elite pairs", 2); c.cache = sym_choice("cache", 2) ? 1 : 0; if (c.gens == 3 && (c.cache > 0 || c.elite == 0)) return; search(c); }
ENTRY(c13_four) { drawLimit = 7; Cfg c; c.pop = 4; c.elite = 1 + sym_choice("elite pairs", 2); search(c); }
ENTRY(c13_quiet) {
  drawLimit = 7; Cfg c; c.callback = false; c.gens = 1 + sym_choice("generations", 3); c.elite = c.gens == 3; double f[3]; objective(f, "f"); double stop = c.stop = sym_double("stop", 0, 1000); sym_rand_hook = draw; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new NoChange)); startFrom(*ga, startCodes(2)); finish(*ga, c, f);
  int n = evals.size() / 2, reached = 0; sym_assert(evals.size() % 2 == 0 && n >= 1 && n <= c.gens, "number of evaluations");
  for (int i = 0; i < n; i++) { sym_assert(!reached, "the run goes on after the stop criterion was reached"); reached = sym_or(reached, sym_or(valueAt(evals[2 * i]) >= stop, valueAt(evals[2 * i + 1]) >= stop)); }
  sym_assert(sym_or(reached, n == c.gens), "the run ends early without reaching the stop criterion"); if (n < c.gens) sym_cover("stopped"); else sym_cover("ran to the end");
}
ENTRY(c13_big) { Cfg c; bigSetup(c); double f[BIG]; bigObjective(f, "f"); c.stop = sym_choice("stop", 2) ? 31 : 1e9; GeneticAlgorithm::shared_ptr ga = make(c, IMutator::shared_ptr(new Several)); bigRun(*ga, c, f); sym_cover(stopped ? "stopped" : "ran"); }
