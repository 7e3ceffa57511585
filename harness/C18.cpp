/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/continuous_optimizer.cpp", "src/optimization/continuous_objective_function.cpp", "src/optimization/random_search.cpp", "src/optimization/simulated_annealing.cpp", "src/optimization/hooke_jeeves_method.cpp", "src/optimization/bounded_nelder_mead.cpp", "src/optimization/hleborodov_rosenbrock_method.cpp", "src/optimization/conjugate_gradient_method.cpp", "src/optimization/steepest_descent_method.cpp", "src/optimization/grid_search.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/simple_parameters_processor.cpp", "src/optimization/optimization_parameters_processor.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/optimization_task.cpp", "src/optimization/optimization_task_result.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/generation_statistics.cpp", "src/optimization/discrete_optimizer.cpp", "src/optimization/discrete_objective_function.cpp", "src/optimization/initialization_checker.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "1 and 2 parameters, every objective (an uninterpreted function with finite values; for the gradient methods quadratics with every centre in [-2,2]), searches of up to the stated number of evaluations, random draws of 0, the middle and the largest value",
 "assumptions": ["real arithmetic on the objective values", "both runs see the same random draws"],
 "entries": [
  {"name": "c18_hooke", "opts": "real,nomerge", "covers": ["same"], "bounds": "Hooke-Jeeves, up to 12 evaluations"},
  {"name": "c18_nelder", "opts": "real,nomerge", "covers": ["same"], "bounds": "bounded Nelder-Mead, one iteration; two for one parameter"},
  {"name": "c18_rosenbrock", "opts": "real,nomerge", "covers": ["same"], "bounds": "Rosenbrock, up to 2 stages"},
  {"name": "c18_random", "opts": "real,nomerge", "covers": ["same"], "bounds": "random search with up to 3 points, alone and with a nested Hooke-Jeeves search of up to 6 evaluations each"},
  {"name": "c18_anneal", "opts": "real,nomerge", "covers": ["same"], "bounds": "simulated annealing, up to 2 iterations"},
  {"name": "c18_grid", "opts": "real,nomerge", "covers": ["same"], "bounds": "grid search, up to 4 nodes"},
  {"name": "c18_gradient", "opts": "real,nomerge", "covers": ["same"], "bounds": "conjugate gradients and steepest descent, 1 parameter, one or two iterations"},
  {"name": "c18_genetic", "opts": "real,nomerge", "covers": ["refused"], "bounds": "one population, every start value"},
  {"name": "c18_many", "opts": "real", "covers": ["same"], "bounds": "six methods with 3..8 parameters or many iterations, known objectives free at one evaluated point of the first 12"}
 ]}
*/
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/grid_search.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/common/random.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/discrete_objective_function.h>
#include <cstdlib>
#include "opt_util.h"
extern "C" { extern int (*sym_rand_hook)(); }
static std::vector<int> tape; static size_t pos; static bool warm = true;
static int draw() { static const int v[3] = {0, RAND_MAX / 2 + 1, RAND_MAX}; if (warm) return 0; if (pos == tape.size()) tape.push_back(v[sym_choice("draw", 3)]); return tape[pos++]; }
// maximising f and minimising -f, by two optimizers made alike or one after the other by the same
static void senses(IOptimizer& up, IOptimizer& down, const Pt& start, size_t limit) {
  Log lu, ld; lu.limit = limit; ld.limit = limit * 2; Fn f(&lu, false, -64, 64), g(&ld, true, -64, 64); ContinuousParametersArray a(start), b(start); sym_rand_hook = draw; k52::common::Random::Instance().GetRandomBool(); warm = false; int how = sym_choice("order", 3); IOptimizer& other = how ? up : down;
  for (int i = 0; i < 2; i++) { pos = 0; if ((i == 0) == (how == 2)) other.Optimize(g, &b, false); else up.Optimize(f, &a, true); }
  sym_assert(same(a.GetValues(), b.GetValues()), "maximising ends elsewhere than minimising the negated objective"); sym_assert(lu.p.size() == ld.p.size(), "maximising evaluates other points than minimising the negated objective"); sym_cover("same");
}
ENTRY(c18_hooke) { int n = 1 + sym_choice("parameters", 2); HookeJeevesMethod u(2, 1, 1000, n == 1 ? 0.6 : 1.2, 2), d(2, 1, 1000, n == 1 ? 0.6 : 1.2, 2); senses(u, d, Pt(n, 0.5), 12); }
ENTRY(c18_nelder) { int n = 1 + sym_choice("parameters", 2); double p = n == 1 && sym_choice("precision", 2) ? 8 : 128; BoundedNelderMead u(1, p, -2, 2), d(1, p, -2, 2); senses(u, d, Pt(n, 0.5), p == 8 ? 4 : 8); }
ENTRY(c18_rosenbrock) { int n = 1 + sym_choice("parameters", 2), k = 1 + sym_choice("stages", 2); HleborodovRosenbrockMethod u(0.1, k, 1, 4), d(0.1, k, 1, 4); senses(u, d, Pt(n, 0.5), 100); }
ENTRY(c18_random) {
  int k = 1 + sym_choice("points", 3); HookeJeevesMethod h(2, 1, 1000, 0.6, 2); bool nested = sym_choice("nested", 2); if (nested && k > 2) return;
  RandomSearch u(k, -1, 1, nested ? &h : 0), d(k, -1, 1, nested ? &h : 0); senses(u, d, Pt(1, 0.5), nested ? 12 : 100);
}
ENTRY(c18_anneal) { int n = 1 + sym_choice("parameters", 2), k = n == 1 ? 1 + sym_choice("iterations", 2) : 1; SimulatedAnnealing u(k, -1, 1), d(k, -1, 1); senses(u, d, Pt(n, 0.75), 100); }
ENTRY(c18_grid) { int n = 1 + sym_choice("parameters", 2); GridSearch u(1, 0, n == 1 ? 3 : 1), d(1, 0, n == 1 ? 3 : 1); senses(u, d, Pt(n, 0.), 100); }
struct Quad : ContinuousObjectiveFunction {
  double c, sign; Quad(double c_, double s) : c(c_), sign(s) {} using ContinuousObjectiveFunction::operator();
  virtual double operator()(const Pt& x) const { return sign * ((x[0] - c) * (x[0] - c)); } virtual Quad* Clone() const { return new Quad(c, sign); } };
ENTRY(c18_gradient) {
  double c = sym_double("c", -2, 2); bool steep = sym_choice("steepest", 2); Quad f(c, -1), g(c, 1); ConjugateGradientMethod cu(0.0009765625, 0.5, 3), cd(0.0009765625, 0.5, 3); SteepestDescentMethod su(0.5, 1, 0.25), sd(0.5, 1, 0.25);
  Pt st(1, 0.), a, b; a = run(steep ? (ContinuousOptimizer&)su : cu, f, st, true); b = run(steep ? (ContinuousOptimizer&)sd : cd, g, st, false); sym_assert(same(a, b), "maximising ends elsewhere than minimising the negated objective"); sym_cover("same");
}
struct Keep : IMutator { virtual void ApplyNewMutationContext(const MutationContext&) {} virtual void MutateChromosome(ChromosomeType*) {} };
struct Count : DiscreteObjectiveFunction { int* n; Count(int* n_) : n(n_) {} using DiscreteObjectiveFunction::operator(); virtual double operator()(const IDiscreteParameters* const) const { ++*n; return 1; } virtual Count* Clone() const { return new Count(n); } };
ENTRY(c18_genetic) { int n = 0, v = sym_int("start", 0, 3); Count f(&n); IntParameter p(v, 0, 3); GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(2, 0, 1, IMutator::shared_ptr(new Keep), 0); sym_rand_hook = draw; bool t = THROWS(ga->Optimize(f, &p, false)); sym_assert(t, "the genetic algorithm does not refuse to minimise"); sym_assert(n == 0 && p.get_value() == v, "a refused run has effects"); sym_cover("refused"); }
static unsigned long long lcg = 1; static int next() { static size_t at; (void)at; if (warm) return 0; if (pos == tape.size()) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; tape.push_back((int)(lcg >> 33)); } return tape[pos++]; }
static void sensesLong(IOptimizer& up, IOptimizer& down, const Pt& start) {
  Log lu, ld; Fn f(&lu), g(&ld, true); ContinuousParametersArray a(start), b(start); sym_rand_hook = next; k52::common::Random::Instance().GetRandomBool(); warm = false; int how = sym_choice("order", 3); IOptimizer& other = how ? up : down;
  for (int i = 0; i < 2; i++) { pos = 0; if ((i == 0) == (how == 2)) other.Optimize(g, &b, false); else up.Optimize(f, &a, true); }
  sym_assert(same(a.GetValues(), b.GetValues()), "maximising ends elsewhere than minimising the negated objective"); sym_assert(lu.p.size() == ld.p.size(), "maximising evaluates other points than minimising the negated objective"); sym_cover("same");
}
ENTRY(c18_many) {
  int m = sym_choice("method", 6); int at = sym_choice("free", 12), shape = sym_choice("shape", 2); spike.arm(at, shape); bool two = sym_choice("larger", 2);
  if (m == 0) { int n = two ? 8 : 3; HookeJeevesMethod u(1.5, 1, 40, 0.6, 2), d(1.5, 1, 40, 0.6, 2); sensesLong(u, d, Pt(n, 0.5)); }
  if (m == 1) { if (at > 3) return; int n = two ? 4 : 3; BoundedNelderMead u(1, 32, -2, 2), d(1, 32, -2, 2); sensesLong(u, d, Pt(n, 0.5)); }
  if (m == 2) { int n = two ? 5 : 3; HleborodovRosenbrockMethod u(0.1, 6, 1, 4), d(0.1, 6, 1, 4); sensesLong(u, d, Pt(n, 0.5)); }
  if (m == 3) { int k = two ? 40 : 9; RandomSearch u(k, -1, 1), d(k, -1, 1); sensesLong(u, d, Pt(2, 0.5)); }
  if (m == 4) { int k = two ? 20 : 9; SimulatedAnnealing u(k, -1, 1), d(k, -1, 1); sensesLong(u, d, Pt(2, 0.75)); }
  if (m == 5) { int n = two ? 3 : 2; GridSearch u(0.5, -1, 1), d(0.5, -1, 1); sensesLong(u, d, Pt(n, 0.)); }
}
