/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp", "src/optimization/genetic_algorithm/individual.cpp"], "ubsan": true,
 "bounds": "chromosomes of every length from 0 to 8, every pair of bit patterns, every random draw; two crossovers in a row",
 "entries": [
  {"name": "c07_crossover", "opts": "overflow", "covers": ["crossed", "proper", "empty"], "bounds": "lengths 0..8"},
  {"name": "c07_twice", "opts": "overflow", "covers": ["crossed"], "bounds": "two crossovers, lengths 1..4"},
  {"name": "c07_lengths", "opts": "overflow", "covers": ["rejected"], "bounds": "lengths 0..5, different"},
  {"name": "c07_reach", "opts": "overflow", "covers": ["crossed"], "bounds": "lengths 2..5: every cut point is reachable"},
  {"name": "c07_long", "opts": "overflow", "covers": ["crossed"], "bounds": "chromosomes of 9, 16, 31, 32, 33, 63, 64, 65, 100 bits, parents free at both ends and near the cut, opposite or alternating elsewhere, n + 1 draws spread over the range of rand()"}
 ]}
*/
#include "params_util.h"
#include "random_util.h"
#include <k52/optimization/individual.h>
// n-bit individual with symbolic bits: every chromosome is feasible
static Individual* make(int n, const char* name) { int hi = n ? (1 << n) - 1 : 0; IntParameter p(sym_int(name, 0, hi), 0, hi); Individual* r = new Individual(&p); sym_assert(r->GetChromosome().size() == (size_t)n, "length"); return r; }
static void laws(const Chr& a, const Chr& b, const Chr& x, const Chr& y) {
  size_t n = a.size(); sym_assert(x.size() == n && y.size() == n, "crossover changes a length");
  int swapped = 0, ok = 1, conserved = 1; // once a locus was exchanged, all later ones are
  for (size_t i = 0; i < n; i++) {
    bool p = a[i], q = b[i], u = x[i], v = y[i]; conserved = sym_and(conserved, sym_or(sym_and(p == u, q == v), sym_and(p == v, q == u)));
    int sw = sym_and(p != q, sym_and(p == v, q == u)), same = sym_or(p == q, sym_and(p == u, q == v));
    ok = sym_and(ok, sym_or(!swapped, sym_or(p == q, sw))); swapped = sym_or(swapped, sw);
  }
  sym_assert(conserved, "a gene is lost at a locus"); sym_assert(ok, "more than one cut point");
}
ENTRY(c07_crossover) {
  int n = sym_choice("length", 9); Individual *a = make(n, "a"), *b = make(n, "b"); Chr p = a->GetChromosome(), q = b->GetChromosome();
  bool r = a->Crossover(b); laws(p, q, a->GetChromosome(), b->GetChromosome()); sym_assert(r, "feasible children reported infeasible"); sym_cover("crossed"); if (n == 0) sym_cover("empty"); if (n > 1) sym_cover("proper");
  Chr c = chrOf(*a->GetParametersAccordingToChromosome()), d = chrOf(*b->GetParametersAccordingToChromosome()); sym_assert(sameBits(c, a->GetChromosome()), "parameters of the first child"); sym_assert(sameBits(d, b->GetChromosome()), "parameters of the second child");
}
ENTRY(c07_twice) {
  int n = 1 + sym_choice("length", 4); Individual *a = make(n, "a"), *b = make(n, "b"); Chr p = a->GetChromosome(), q = b->GetChromosome();
  a->Crossover(b); Chr x = a->GetChromosome(), y = b->GetChromosome(); b->Crossover(a); laws(y, x, b->GetChromosome(), a->GetChromosome()); int k = 1; const Chr &u = a->GetChromosome(), &v = b->GetChromosome();
  for (int i = 0; i < n; i++) k = sym_and(k, sym_or(sym_and((bool)p[i] == (bool)u[i], (bool)q[i] == (bool)v[i]), sym_and((bool)p[i] == (bool)v[i], (bool)q[i] == (bool)u[i]))); sym_assert(k, "a gene is lost at a locus"); sym_cover("crossed");
}
ENTRY(c07_lengths) {
  int n = sym_choice("n", 6), m = sym_choice("m", 6); if (n == m) sym_done(); Individual *a = make(n, "a"), *b = make(m, "b"); Chr p = a->GetChromosome(), q = b->GetChromosome();
  sym_assert(THROWS(a->Crossover(b)), "individuals of different chromosome length are crossed"); sym_assert(sameBits(p, a->GetChromosome()), "a rejected crossover changes the first individual"); sym_assert(sameBits(q, b->GetChromosome()), "a rejected crossover changes the second individual"); sym_cover("rejected");
}
ENTRY(c07_reach) { // from opposite parents the cut point shows: each one inside the chromosome can be drawn
  int n = 2 + sym_choice("length", 4), cut = 1 + sym_choice("cut", n - 1); int hi = (1 << n) - 1; IntParameter z(0, 0, hi), o(hi, 0, hi); Individual a(&z), b(&o); a.Crossover(&b); const Chr& c = a.GetChromosome();
  sym_cover("crossed"); int m = 1; for (int i = 0; i < n; i++) m = sym_and(m, (bool)c[i] == (i >= cut)); std::string l = "cut " + std::to_string(cut) + " of " + std::to_string(n); sym_cover(("expect:" + l).c_str());
  int mi = 1; for (int i = 0; i < n; i++) mi = sym_and(mi, (bool)c[i] == (i < cut)); sym_assume(sym_or(m, mi)); sym_cover(l.c_str());
}
static int drawn; static int fixed() { return drawn; }
ENTRY(c07_long) {
  static const int N[] = {9, 16, 31, 32, 33, 63, 64, 65, 100}; int n = N[sym_choice("length", 9)], alt = sym_choice("alternating", 2), k = sym_choice("draw", n + 1); drawn = 0; sym_rand_hook = fixed; k52::common::Random::Instance().GetRandomBool(); drawn = k == n ? RAND_MAX : (int)(k * (RAND_MAX + 1.0) / n) + 1; IntParameter::shared_ptr bit(new IntParameter(0, 0, 1)); CompositeDiscreteParameters p, q; p.Initialize(bit, n); q.Initialize(bit, n); for (int i = 0; i < n; i++) { bool free = i == 0 || i == n - 1 || (i >= k - 2 && i <= k + 2); int bp = free ? sym_int("bit", 0, 1) : alt ? i % 2 : 0, bq = free ? sym_int("bit", 0, 1) : alt ? 1 - i % 2 : 1; static_cast<IntParameter*>(p.GetParameter(i).get())->set_value(bp); static_cast<IntParameter*>(q.GetParameter(i).get())->set_value(bq); }
  Individual a(&p), b(&q); Chr u = a.GetChromosome(), v = b.GetChromosome(); sym_assert((int)u.size() == n, "length"); bool r = a.Crossover(&b); laws(u, v, a.GetChromosome(), b.GetChromosome()); sym_assert(r, "feasible children reported infeasible"); Chr c = chrOf(*a.GetParametersAccordingToChromosome()); sym_assert(sameBits(c, a.GetChromosome()), "parameters of the first child"); sym_cover("crossed");
}
