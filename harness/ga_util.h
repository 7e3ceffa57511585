#pragma once
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/generation_statistics.h>
#include <k52/optimization/discrete_objective_function.h>
#include "params_util.h"
#include "random_util.h"
// A genetic run over an integer parameter with three feasible codes out of four; PROP selects whose assertions count.
static int LO = -2, HI = 0;
struct Cfg { int pop, elite, gens; double cache, stop; bool callback; Cfg() : pop(2), elite(0), gens(2), cache(0), stop(1e9), callback(true) {} };
static const Cfg* cfg; static const double* fn; // the configuration and the objective's values of the run in progress
static std::vector<int> evals, people; static std::vector<std::vector<int> > generations; static int callbacks, perGeneration; static double lastBest; static bool stopped;
static bool feasible(int v) { return LO <= v && v <= HI; }
static int codeOf(const Chr& c) { IntParameter p(LO, HI); p.SetFromChromosome(c.begin(), c.end()); return p.get_value(); }
static void own(int prop, int c, const char* msg) { if (prop == PROP) sym_assert(c, msg); }
// choices are recorded so that another run can be made with the same ones
static std::vector<int> tape; static size_t tapePos; static bool replaying;
static int pick(const char* name, int n) { if (replaying) { if (tapePos >= tape.size()) { own(PROP, 0, "the run makes more random choices"); return 0; } return tape[tapePos++]; } int v = sym_choice(name, n); tape.push_back(v); return v; }
static double valueAt(int v) { return feasible(v) ? fn[v - LO] : 0; }
struct Obj : public DiscreteObjectiveFunction {
  using DiscreteObjectiveFunction::operator();
  virtual double operator()(const IDiscreteParameters* const p) const { int v = static_cast<const IntParameter*>(p)->get_value(); own(12, feasible(v), "the objective is asked for infeasible parameters"); evals.push_back(v); perGeneration++; return valueAt(v); }
  virtual Obj* Clone() const { return new Obj; }
};
// after the last generation nothing that happens matters: no choices
static bool ending;
static bool over() { return ending || (cfg && cfg->callback && (stopped || callbacks >= cfg->gens)); }
// flips one bit or none of an individual (of at most `most` individuals of a generation); the feasible outcomes in order are the next population
struct OneBit : public IMutator { int tries, most, flips; explicit OneBit(int m = 1000) : tries(0), most(m), flips(0) {}
  void ApplyNewMutationContext(const MutationContext&) { people.clear(); flips = 0; }
  void MutateChromosome(Chr* c) { int k = over() || (flips >= most && !tries) ? 0 : pick("mutate", 1 + (int)c->size()); flips += k > 0; if (k) (*c)[k - 1] = !(*c)[k - 1]; int v = codeOf(*c); if (feasible(v)) { people.push_back(v); tries = 0; } else if (++tries > 1) sym_assume(0); } };
struct NoChange : public IMutator { void ApplyNewMutationContext(const MutationContext&) { people.clear(); } void MutateChromosome(Chr* c) { people.push_back(codeOf(*c)); } };
static void onGeneration(GenerationStatistics s) {
  own(13, (int)s.get_number_of_generation() == callbacks, "generations are not numbered in order"); callbacks++; own(13, !stopped, "the run goes on after the stop criterion was reached"); own(13, callbacks <= cfg->gens, "more generations than allowed");
  own(13, (int)s.get_all_individuals_statistics().size() == cfg->pop, "statistics of another number of individuals"); own(13, (int)people.size() == cfg->pop, "a generation has another size");
  if (!(cfg->cache > 0)) own(13, perGeneration == cfg->pop, "a generation does not evaluate each of its individuals once"); perGeneration = 0;
  int b = static_cast<const IntParameter*>(s.get_best_parameters())->get_value(); double bf = s.get_best_fitness(); own(11, feasible(b), "the best individual is infeasible"); own(11, bf == valueAt(b), "the best fitness is not that of the best parameters");
  double sum = 0; for (size_t i = 0; i < people.size(); i++) { sum += valueAt(people[i]); own(11, !(valueAt(people[i]) > bf), "an individual is better than the best"); }
  own(14, s.get_average_fitness() * people.size() == sum, "the fitness of an individual is not the objective's value"); own(11, callbacks == 1 || bf >= lastBest, "the best fitness got worse"); lastBest = bf; if (bf >= cfg->stop) stopped = true; generations.push_back(people);
}
static void begin(const Cfg& c, const double* f) { cfg = &c; fn = f; evals.clear(); generations.clear(); callbacks = perGeneration = 0; lastBest = -1; stopped = false; }
// returns the code the run ended at
static int finish(GeneticAlgorithm& ga, const Cfg& c, const double* f) {
  begin(c, f); Obj o; IntParameter p(LO, LO, HI); std::string what; bool t = false; try { ga.Optimize(o, &p, true); } catch (const std::exception& e) { t = true; what = e.what(); }
  own(PROP, !t, "the run fails"); if (t) return 99; int r = p.get_value(); own(11, feasible(r), "the result is infeasible"); bool seen = false;
  for (size_t i = 0; i < evals.size(); i++) { own(11, !(valueAt(evals[i]) > valueAt(r)), "the result is worse than an individual evaluated"); seen |= evals[i] == r; } own(11, seen, "the result was never evaluated");
  if (c.callback) { own(13, callbacks >= 1, "no generation"); own(13, stopped || callbacks == c.gens, "the run ends early without reaching the stop criterion"); own(11, lastBest == valueAt(r), "the result is not the best individual"); }
  return r;
}
static GeneticAlgorithm::shared_ptr make(const Cfg& c, IMutator::shared_ptr m) { GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(c.pop, c.elite, c.gens, m, c.cache, c.stop); if (c.callback) ga->OnNextGenerationReadyConnect(onGeneration); return ga; }
static void startFrom(GeneticAlgorithm& ga, const std::vector<int>& codes) { std::vector<IDiscreteParameters::shared_ptr> v; for (size_t i = 0; i < codes.size(); i++) v.push_back(IDiscreteParameters::shared_ptr(new IntParameter(codes[i], LO, HI))); ga.SetInitialParameters(v); people = codes; }
static std::vector<int> startCodes(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i < 3 ? LO + sym_choice("start", 3) : LO + 1); return v; }
static void objective(double* f, const char* name) { for (int i = 0; i < 3; i++) f[i] = sym_double(name, 0, 1000); }
// random draws: the first one seeds the random bits, later ones take a few values over the whole range
static int draws, drawKinds = 2, drawLimit = 1000, seedKinds = 1;
static int draw() { if (draws++ == 0) { int b = sym_choice("bits", seedKinds > 16 ? 16 : seedKinds); if (seedKinds > 16) b |= sym_choice("more bits", seedKinds / 16) << 4; return b | (0x7fffffff ^ (seedKinds - 1)); } if (over()) return 0; if (!replaying && draws > drawLimit) sym_assume(0); static const int v[3] = {0, RAND_MAX, RAND_MAX / 2 + 1}; return v[pick("draw", drawKinds)]; }
// Larger populations: a known objective over 45 feasible codes of 64, free within a window at one code; draws and mutations from a fixed generator.
static unsigned long long lcg; static int lcgNext() { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return (int)(lcg >> 33); }
static int bigDraw() { if (draws++ == 0) return 0x7fffffff; return lcgNext(); }
struct Several : public IMutator { int tries; Several() : tries(0) {}
  void ApplyNewMutationContext(const MutationContext&) { people.clear(); tries = 0; }
  void MutateChromosome(Chr* c) { if (!tries) for (size_t i = 0; i < c->size(); i++) if (lcgNext() % 6 == 0) (*c)[i] = !(*c)[i]; if (tries) for (size_t i = 0; i < c->size(); i++) (*c)[i] = lcgNext() % 2; int v = codeOf(*c); if (feasible(v)) { people.push_back(v); tries = 0; } else tries++; } };
static const int BIG = 45; static int freeCode;
static void bigObjective(double* f, const char* name) {
  static const double W[4][2] = {{0, 0.25}, {7, 7.25}, {31.5, 32}, {900, 1000}}; for (int i = 0; i < BIG; i++) f[i] = (i * 29 % 64) * 0.5; freeCode = sym_choice("free code", 6) * 8 + 1; const double* w = W[sym_choice("window", 4)]; f[freeCode] = sym_double(name, w[0], w[1]);
}
static void bigSetup(Cfg& c) { static const int P[] = {6, 10, 20, 40}; LO = -20; HI = LO + BIG - 1; c.pop = P[sym_choice("population", 4)]; c.elite = sym_choice("elite pairs", 3); c.gens = c.pop > 10 ? 4 : 10; lcg = 11 + sym_choice("draws", 3); draws = 0; sym_rand_hook = bigDraw; }
static std::vector<int> bigStart(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(LO + (i * 8 + 1) % BIG); return v; }
static int bigRun(GeneticAlgorithm& ga, const Cfg& c, const double* f) { startFrom(ga, bigStart(c.pop)); return finish(ga, c, f); }
