/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp"], "ubsan": true,
 "bounds": "12 interval/precision configurations x every chromosome / every value of the interval; symbolic bounds in [-1000,1000] and precision in [1/1024,4096] for the grid choice",
 "assumptions": ["entries marked round: every machine operation is the real one plus an error variable bounded by half a unit in the last place of its range", "set values lie within the parameter's bounds"],
 "entries": [
  {"name": "c02_decode", "opts": "overflow,ms=60000", "covers": ["top", "bottom"], "bounds": "IEEE semantics, all chromosomes of 12 configurations (2 to 18 bits)"},
  {"name": "c02_writeback", "opts": "round,overflow", "covers": ["back"], "bounds": "all chromosomes of 12 configurations"},
  {"name": "c02_writeback_exact", "opts": "overflow,ms=60000", "covers": ["back"], "bounds": "IEEE semantics, all chromosomes of 3 configurations"},
  {"name": "c02_set", "opts": "round,overflow", "covers": ["set"], "bounds": "all values of 12 configurations"},
  {"name": "c02_set_exact", "tier": "thorough", "opts": "overflow,ms=60000", "covers": ["set"], "bounds": "IEEE semantics, all doubles of 2 intervals"},
  {"name": "c02_precision", "opts": "real,ms=8000", "covers": ["made"], "bounds": "symbolic bounds and precision"},
  {"name": "c02_reject", "opts": "overflow", "covers": ["rejected", "accepted"], "bounds": "every double as start value, bounds of 5 configurations"}
 ]}
*/
#include <k52/optimization/params/double_parameter.h>
#include "sym.h"
#include "util.h"
using namespace k52::optimization;

static const double conf[][3] = { {0, 1, 0.25}, {0, 1, 0.3}, {-1, 1, 0.1}, {0, 10, 1}, {0, 8, 1}, {0, 7, 1}, {-5.5, 3.25, 0.01}, {1, 2, 1e-3}, {0.1, 0.7, 0.05}, {-1e3, 1e3, 0.5}, {0, 3, 3}, {-0.3, 1.1, 1e-3} };
static const int nconf = sizeof conf / sizeof conf[0];
static int same(const ChromosomeType& a, const ChromosomeType& b) { int s = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); i++) s = sym_and(s, (bool)a[i] == (bool)b[i]); return s; }

static void decode(const double* c) {
  double lo = c[0], hi = c[1], prec = c[2];
  DoubleParameter p(lo, lo, hi, prec);
  sym_assert(p.get_actual_precision() <= prec * (1 + 1e-12), "grid coarser than the desired precision");
  sym_assert(p.get_actual_precision() > 0, "grid step not positive");
  size_t n = p.GetChromosomeSize();
  // not absurdly fine: one bit less would not reach the precision
  sym_assert(n == 0 || (hi - lo) / std::ldexp(1.0, (int)n - 1) > prec * (1 - 1e-9) * 0.5, "chromosome longer than the precision needs");
  ChromosomeType bits(n); int all = 1, none = 1;
  for (size_t i = 0; i < n; i++) { int b = sym_bool("bit"); bits[i] = b; all = sym_and(all, b); none = sym_and(none, !b); }
  p.SetFromChromosome(bits.begin(), bits.end());
  double v = p.GetValue();
  sym_assert(sym_and(lo <= v, v <= hi), "a chromosome decodes outside the bounds");
  sym_assert(p.CheckConstraints(), "a chromosome decodes to a value reported out of constraints");
  sym_assert(sym_or(!all, v == hi), "the upper bound is not representable");
  sym_assert(sym_or(!none, v == lo), "the lower bound is not representable");
  ChromosomeType again(n); p.SetChromosome(again.begin(), again.end());
  sym_assert(same(bits, again), "decoding then encoding changes the chromosome");
  sym_observe("v", v);
  if (all) sym_cover("top"); else if (none) sym_cover("bottom");
}
ENTRY(c02_decode) { decode(conf[sym_choice("conf", nconf)]); }
static void writeback(const double* c) {
  double lo = c[0], hi = c[1], prec = c[2];
  DoubleParameter p(lo, lo, hi, prec); size_t n = p.GetChromosomeSize();
  ChromosomeType bits(n), back(n); for (size_t i = 0; i < n; i++) bits[i] = sym_bool("bit");
  p.SetFromChromosome(bits.begin(), bits.end());
  DoubleParameter q(lo, lo, hi, prec); q.SetValue(p.GetValue());
  q.SetChromosome(back.begin(), back.end());
  sym_assert(same(bits, back), "value read from the parameter and written back gives another chromosome");
  sym_cover("back");
}
ENTRY(c02_writeback) { writeback(conf[sym_choice("conf", nconf)]); }
ENTRY(c02_writeback_exact) { writeback(conf[sym_choice("conf", 3)]); }
static void set(const double* c, int exact) {
  double lo = c[0], hi = c[1], prec = c[2];
  double v = sym_double("value", lo, hi);
  DoubleParameter p(lo, lo, hi, prec);
  p.SetValue(v);
  double g = p.GetValue(), step = p.get_actual_precision();
  sym_assert(sym_and(g - v <= step * 1.000001, v - g <= step * 1.000001), "stored value further away than a grid step");
  double tol = exact ? 0 : 1e-9 * step;
  sym_assert(sym_and(lo - tol <= g, g <= hi + tol), "stored value outside the bounds");
  if (exact) sym_assert(p.CheckConstraints(), "value of the interval reported out of constraints");
  DoubleParameter q(v, lo, hi, prec);
  size_t n = p.GetChromosomeSize(); ChromosomeType a(n), b(n); p.SetChromosome(a.begin(), a.end()); q.SetChromosome(b.begin(), b.end());
  sym_assert(same(a, b), "constructed and set parameters differ");
  DoubleParameter r(lo, lo, hi, prec); r.SetFromChromosome(a.begin(), a.end());
  double d = r.GetValue() - g;
  sym_assert(sym_and(-0.25 * step <= d, d <= 0.25 * step), "the chromosome does not decode to the stored value");
  sym_cover("set");
}
ENTRY(c02_set) { set(conf[sym_choice("conf", nconf)], 0); }
ENTRY(c02_set_exact) { set(conf[sym_choice("conf", 2)], 1); }
ENTRY(c02_precision) {
  double lo = sym_double("min", -1000, 1000), hi = sym_double("max", -1000, 1000), prec = sym_double("precision", 1.0 / 1024, 4096);
  sym_assume(lo < hi);
  DoubleParameter p(lo, lo, hi, prec);
  sym_assert(p.get_actual_precision() <= prec, "grid coarser than the desired precision");
  sym_assert(p.GetChromosomeSize() <= 31, "chromosome too long");
  sym_assert(sym_and(p.get_min_value() == lo, p.get_max_value() == hi), "bounds not kept");
  sym_cover("made");
}
ENTRY(c02_reject) {
  const double* c = conf[sym_choice("conf", 5)]; double lo = c[0], hi = c[1], prec = c[2];
  double v = sym_double_any("value"); int in = sym_and(lo <= v, v <= hi);
  bool thrown = false; 
  if (in) { sym_cover("accepted"); }
  else { try { DoubleParameter p(v, lo, hi, prec); } catch (const std::exception&) { thrown = true; } sym_assert(thrown, "a start value outside the bounds is accepted"); sym_cover("rejected"); 
    sym_assert(THROWS(DoubleParameter(hi, hi, lo, prec)), "an empty interval is accepted"); }
}
