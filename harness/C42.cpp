/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/discrete_objective_function.cpp", "src/optimization/discrete_optimizer.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/generation_statistics.cpp", "src/optimization/genetic_algorithm/gen_mutator_base.cpp", "src/optimization/genetic_algorithm/linear_mutator.cpp", "src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp"], "ubsan": true, "files": "model", "undef": ["-DBUILD_WITH_BOOST_THREAD"],
 "bounds": "an integer parameter with 3 feasible codes of 4 and a pair of integer and array parameters, populations of 2, 4 and 6, every start, files saved in the first, second or both generations; files cut at every length, with any character at every place of a chromosome, and with every population and chromosome size up to 99 in the header",
 "assumptions": ["in the symbolic runs the standard streams are a model that keeps the files in memory; the replay uses real files in a scratch directory", "objective values are small natural numbers, so that how numbers are printed does not matter"],
 "entries": [
  {"name": "c42_roundtrip", "opts": "nomerge", "covers": ["first", "second", "both"], "bounds": "every start of a population of 2, generations saved to one or two files"},
  {"name": "c42_larger", "opts": "nomerge", "covers": ["read"], "bounds": "populations of 4 and 6"},
  {"name": "c42_composite", "opts": "nomerge", "covers": ["read"], "bounds": "an integer parameter of 3 bits and an array of two doubles of 2 bits each"},
  {"name": "c42_cut", "opts": "nomerge", "covers": ["refused", "whole"], "bounds": "a saved file cut at every length"},
  {"name": "c42_chars", "opts": "", "covers": ["refused", "read"], "bounds": "any of the 256 characters that is no white space at each place of a chromosome"},
  {"name": "c42_sizes", "opts": "nomerge", "covers": ["refused", "read"], "bounds": "every population size and chromosome size up to 99 written in the header"},
  {"name": "c42_missing", "opts": "nomerge", "covers": ["refused"]}
 ]}
*/
#define PROP 42
#include "ga_util.h"
#include "file_model.h"
// The objective is the value's distance from LO, plus one per run, so that a value left over from the run that saved the file would show.
static int runNumber; static std::vector<std::vector<int> > asked; static int saveWhen, generation, popSize; static bool twice;
struct Natural : public DiscreteObjectiveFunction {
  using DiscreteObjectiveFunction::operator();
  virtual double operator()(const IDiscreteParameters* const p) const { Chr c(p->GetChromosomeSize()); p->SetChromosome(c.begin(), c.end()); std::vector<int> v; for (size_t i = 0; i < c.size(); i++) v.push_back(c[i]); asked.push_back(v); sym_assert(p->CheckConstraints(), "infeasible parameters are evaluated"); return 1 + (runNumber ? 0 : v[0] + 2 * v.back()); }
  virtual Natural* Clone() const { return new Natural; }
};
static void saver(GenerationStatistics s) { if (!runNumber) { if (saveWhen & (1 << generation)) { s.SaveCurrentPopulationToFile(scratchFile(generation)); if (twice) s.SaveCurrentPopulationToFile(scratchFile(generation + 2)); } } else if (!generation) sym_assert(s.get_average_fitness() == 1 && s.get_best_fitness() == 1, "the fitness in the file is used instead of the objective"); generation++; }
static int zero() { static int n; return n++ ? 0 : 0x7fffffff; }
struct Turn : public IMutator { int n; bool on; explicit Turn(int k = 0) : n(k), on(false) {} void ApplyNewMutationContext(const MutationContext&) { on = true; } void MutateChromosome(Chr* c) { if (on && n < 2) { n++; (*c)[c->size() - 1] = !(*c)[c->size() - 1]; } } };
static GeneticAlgorithm::shared_ptr maker(int gens, const std::string& file, bool turn = false) { GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(popSize, 0, gens, turn ? IMutator::shared_ptr(new Turn) : IMutator::shared_ptr(new Turn(2)), 0, 1e9, file); ga->OnNextGenerationReadyConnect(saver); return ga; }
// runs a search; whether it throws
static int (*hook)() = zero;
static bool go(GeneticAlgorithm& ga, IDiscreteParameters* p) { sym_rand_hook = hook; asked.clear(); generation = 0; Natural o; return THROWS(ga.Optimize(o, p, true)); }
static void readBack(int file, const std::vector<std::vector<int> >& all, int gen, IDiscreteParameters* p, const char* msg) {
  std::vector<std::vector<int> > want(all.begin() + gen * popSize, all.begin() + (gen + 1) * popSize); runNumber = 1; GeneticAlgorithm::shared_ptr ga = maker(1, scratchFile(file)); bool t = go(*ga, p); sym_assert(!t, "a population file is refused"); if (t) return;
  sym_assert((int)asked.size() == popSize, "evaluations of the run that reads"); for (int i = 0; i < popSize; i++) sym_assert(asked[i] == want[i], msg); runNumber = 0;
}
static void begin(GeneticAlgorithm& ga, const std::vector<int>& codes) { LO = 0; HI = 2; startFrom(ga, codes); }
ENTRY(c42_roundtrip) {
  LO = 0; HI = 2; popSize = 2; saveWhen = 1 + sym_choice("save", 3); twice = sym_choice("two files", 2); std::vector<int> s = startCodes(2); GeneticAlgorithm::shared_ptr ga = maker(2, ""); begin(*ga, s); IntParameter p(LO, LO, HI); sym_assert(!go(*ga, &p), "the run that saves fails"); std::vector<std::vector<int> > all = asked; sym_assert(all.size() == 4, "evaluations of the run that saves");
  for (int g = 0; g < 2; g++) if (saveWhen & (1 << g)) { readBack(g, all, g, &p, "the population read is not the one saved"); if (twice) readBack(g + 2, all, g, &p, "the population read from the second file is not the one saved"); } sym_cover(saveWhen == 1 ? "first" : saveWhen == 2 ? "second" : "both");
}
ENTRY(c42_larger) {
  LO = 0; HI = 2; popSize = 4 + 2 * sym_choice("size", 2); saveWhen = 2; std::vector<int> s; for (int i = 0; i < popSize; i++) s.push_back(i < 4 ? LO + sym_choice("start", 3) : i % 3); GeneticAlgorithm::shared_ptr ga = maker(2, ""); begin(*ga, s); IntParameter p(LO, LO, HI); sym_assert(!go(*ga, &p), "the run that saves fails"); std::vector<std::vector<int> > all = asked;
  sym_assert((int)all.size() == 2 * popSize, "evaluations of the run that saves"); readBack(1, all, 1, &p, "the population read is not the one saved"); sym_cover("read");
}
static int bitsDraw() { static int n; if (n++) return 0; int a = sym_choice("bits", 16), b = sym_choice("more bits", 16); return 0x4aaa0000 | a << 3 | b << 10; }
ENTRY(c42_composite) {
  popSize = 2; saveWhen = 3; std::vector<IDiscreteParameters::shared_ptr> v; v.push_back(IDiscreteParameters::shared_ptr(new IntParameter(0, 0, 7))); v.push_back(IDiscreteParameters::shared_ptr(new DoubleParametersArray(0, 3, 1, 2))); CompositeDiscreteParameters p; p.Initialize(v); hook = bitsDraw;
  GeneticAlgorithm::shared_ptr ga = maker(2, "", true); sym_assert(!go(*ga, &p), "the run that saves fails"); std::vector<std::vector<int> > all = asked; sym_assert(all.size() == 4, "evaluations of the run that saves"); for (int g = 0; g < 2; g++) readBack(g, all, g, &p, "the population read is not the one saved"); if (all[0] != all[1]) sym_cover("read");
}
static std::string saved(const std::vector<int>& s) { popSize = (int)s.size(); saveWhen = 1; LO = 0; HI = 2; GeneticAlgorithm::shared_ptr ga = maker(1, ""); begin(*ga, s); IntParameter p(LO, LO, HI); sym_assert(!go(*ga, &p), "the run that saves fails"); return readScratch(0); }
// the places of the chromosomes' characters in a file: runs of 0 and 1 that are a whole word of `bits` characters after a word that is no number
static std::vector<size_t> places(const std::string& t, size_t bits) { std::vector<size_t> r; bool word = false; for (size_t i = 0; i < t.size();) { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n')) i++; size_t b = i; bool digits = true; while (i < t.size() && !(t[i] == ' ' || t[i] == '\t' || t[i] == '\n')) digits &= t[i] == '0' || t[i] == '1', i++; if (digits && word && i - b == bits) for (size_t k = b; k < i; k++) r.push_back(k); word = i > b; } return r; }
ENTRY(c42_cut) {
  std::vector<int> s; s.push_back(1); s.push_back(2); std::string t = saved(s); sym_assert(!t.empty(), "nothing is saved"); std::vector<size_t> w = places(t, 2); sym_assert(w.size() == 4, "the file does not hold two chromosomes"); int n = sym_choice("length", 200); if (n > (int)t.size()) sym_assume(0); writeScratch(1, t.substr(0, n)); runNumber = 1; GeneticAlgorithm::shared_ptr ga = maker(1, scratchFile(1)); IntParameter p(LO, LO, HI); bool r = go(*ga, &p);
  if (n <= (int)w[3]) { sym_assert(r && asked.empty(), "a file that ends before its last chromosome is read"); sym_cover("refused"); } else if (n == (int)t.size()) { sym_assert(!r, "a whole file is refused"); sym_cover("whole"); }
}
ENTRY(c42_chars) {
  std::vector<int> s; s.push_back(1); s.push_back(2); std::string t = saved(s); std::vector<size_t> w = places(t, 2); sym_assert(w.size() == 4, "the file does not hold two chromosomes"); int k = sym_choice("place", 4); int c = sym_int("character", -128, 127); if (c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f') sym_assume(0); std::string u = t; u[w[k]] = (char)c; writeScratch(1, u); runNumber = 1; GeneticAlgorithm::shared_ptr ga = maker(1, scratchFile(1)); IntParameter p(LO, LO, HI); bool r = go(*ga, &p);
  if (c != '0' && c != '1') { sym_assert(r && asked.empty(), "a chromosome with other characters than 0 and 1 is read"); sym_cover("refused"); } else { bool ok = true; for (int i = 0; i < 2; i++) { bool b[2] = {u[w[2 * i]] == '1', u[w[2 * i + 1]] == '1'}; Chr h; h.push_back(b[0]); h.push_back(b[1]); IntParameter q(LO, LO, HI); q.SetFromChromosome(h.begin(), h.end()); ok &= q.CheckConstraints(); if (!r) sym_assert((int)asked.size() == 2 && asked[i][0] == b[0] && asked[i][1] == b[1], "another individual is read"); } sym_assert(r == !ok, "an infeasible individual is read, or a feasible one refused"); if (!r) sym_cover("read"); }
}
ENTRY(c42_sizes) {
  std::vector<int> s; s.push_back(1); s.push_back(2); std::string t = saved(s); int what = sym_choice("which", 2), n = sym_choice("number", 100); size_t at = 0; int seen = 0; // the header's two numbers are the first words made of digits
  std::string u; for (size_t i = 0; i < t.size();) { size_t b = i; bool digits = true; while (i < t.size() && !(t[i] == ' ' || t[i] == '\t' || t[i] == '\n')) digits &= t[i] >= '0' && t[i] <= '9', i++; if (digits && i > b && seen++ == what) { if (n > 9) u += (char)('0' + n / 10); u += (char)('0' + n % 10); at = 1; } else u += t.substr(b, i - b); while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n')) u += t[i++]; }
  sym_assert(at, "the file has no header"); writeScratch(1, u); runNumber = 1; GeneticAlgorithm::shared_ptr ga = maker(1, scratchFile(1)); IntParameter p(LO, LO, HI); bool r = go(*ga, &p); sym_assert(r == (n != 2), "a file of another population or chromosome size is read, or the right one refused"); if (r) sym_assert(asked.empty(), "a refused run evaluates the objective"); sym_cover(r ? "refused" : "read");
}
ENTRY(c42_missing) { popSize = 2; LO = 0; HI = 2; runNumber = 1; GeneticAlgorithm::shared_ptr ga = maker(1, scratchFile(3)); if (sym_choice("start given", 2)) startFrom(*ga, startCodes(2)); IntParameter p(LO, LO, HI); sym_assert(go(*ga, &p) && asked.empty(), "a missing population file is ignored"); sym_cover("refused"); }
