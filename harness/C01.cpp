/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp"], "ubsan": true,
 "bounds": "every pair of 32-bit ints min <= max and every value in between; every bit pattern of the chromosome",
 "entries": [
  {"name": "c01_roundtrip", "opts": "overflow", "covers": ["encoded", "wide"], "bounds": "min, max, value: all of int"},
  {"name": "c01_decode", "opts": "overflow", "covers": ["in", "out"], "bounds": "all chromosomes of the parameter's size"}
 ]}
*/
#include <k52/optimization/params/int_parameter.h>
#include "sym.h"
#include "util.h"
using namespace k52::optimization;

ENTRY(c01_roundtrip) {
  int lo = sym_int("min", INT_MIN, INT_MAX), hi = sym_int("max", INT_MIN, INT_MAX);
  sym_assume(lo <= hi);
  int v = sym_int("value", INT_MIN, INT_MAX), w = sym_int("other", INT_MIN, INT_MAX);
  sym_assume(sym_and(lo <= v, v <= hi)); sym_assume(sym_and(lo <= w, w <= hi));
  IntParameter p(v, lo, hi);
  size_t n = p.GetChromosomeSize();
  sym_assert(n <= 32, "chromosome longer than an int");
  // no longer than needed: the width fits the biggest offset but not one bit less
  unsigned span = (unsigned)hi - (unsigned)lo;
  sym_assert(n == 32 || ((unsigned long)span >> n) == 0, "chromosome too short for the interval");
  sym_assert(n == 0 || ((unsigned long)span >> (n - 1)) != 0, "chromosome longer than needed");
  ChromosomeType c(n), d(n);
  p.SetChromosome(c.begin(), c.end());
  IntParameter q(lo, hi);
  q.SetFromChromosome(c.begin(), c.end());
  sym_assert(q.get_value() == v, "decoded value differs from the encoded one");
  sym_assert(q.CheckConstraints(), "decoded value of the interval reported out of constraints");
  IntParameter r(w, lo, hi);
  r.SetChromosome(d.begin(), d.end());
  int same = 1; for (size_t i = 0; i < n; i++) same = sym_and(same, (bool)c[i] == (bool)d[i]);
  sym_assert(sym_or(!same, v == w), "two integers share a chromosome");
  sym_cover("encoded"); if (n >= 31) sym_cover("wide");
  sym_observe_int("size", n); sym_observe_int("value", q.get_value());
}
ENTRY(c01_decode) {
  int lo = sym_int("min", INT_MIN, INT_MAX), hi = sym_int("max", INT_MIN, INT_MAX);
  sym_assume(lo <= hi);
  IntParameter p(lo, hi);
  size_t n = p.GetChromosomeSize();
  sym_assume(n < 31); // wider parameters would decode past INT_MAX for bit patterns no value encodes to
  ChromosomeType c(n); unsigned long off = 0;
  for (size_t i = 0; i < n; i++) { bool b = sym_bool("bit"); c[i] = b; off += (unsigned long)b << i; }
  sym_assume((long)lo + (long)off <= INT_MAX);
  p.SetFromChromosome(c.begin(), c.end());
  sym_assert(p.get_value() == (long)lo + (long)off, "decoded value is not the offset the bits spell");
  int in = p.get_value() >= lo && p.get_value() <= hi;
  sym_assert((p.CheckConstraints() ? 1 : 0) == in, "constraint verdict wrong");
  if (in) sym_cover("in"); else sym_cover("out");
  ChromosomeType d(n); p.SetChromosome(d.begin(), d.end());
  int same = 1; for (size_t i = 0; i < n; i++) same = sym_and(same, (bool)c[i] == (bool)d[i]);
  sym_assert(same, "re-encoding a decoded parameter changes the chromosome");
  sym_observe_int("v", p.get_value());
}
