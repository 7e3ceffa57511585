/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp"], "ubsan": true,
 "bounds": "every built-in parameter class; chromosome ranges of every length from 0 to 3 more than the right one (except the right one); value vectors of length 0..4; every bit pattern of double as value",
 "entries": [
  {"name": "c04_int", "opts": "overflow", "covers": ["rejected"]},
  {"name": "c04_double", "opts": "overflow", "covers": ["rejected"]},
  {"name": "c04_array", "opts": "overflow", "covers": ["rejected"]},
  {"name": "c04_composite", "opts": "overflow", "covers": ["rejected"]},
  {"name": "c04_values", "opts": "overflow", "covers": ["accepted", "outside", "length"], "bounds": "DoubleParametersArray::SetValues: all doubles, NaN and infinities included"},
  {"name": "c04_continuous", "opts": "overflow", "covers": ["accepted", "rejected"]},
  {"name": "c04_uninitialised", "opts": "overflow", "covers": ["done"]},
  {"name": "c04_twice", "opts": "overflow", "covers": ["done"]}
 ]}
*/
#include "params_util.h"
typedef IDiscreteParameters::shared_ptr Ptr;
// hands p ranges of every wrong length: it must throw, leave the range and its own encoding alone
static void wrongSizes(IDiscreteParameters& p) {
  size_t n = p.GetChromosomeSize(); Chr before = chrOf(p); bool ok = p.CheckConstraints();
  size_t k = sym_choice("length", (int)n + 4); if (k == n) sym_done();
  Chr in = symBits(n + 4, "fill"), c(in);
  bool t = false; size_t off = sym_choice("offset", 2); if (k + off > n + 4) sym_done();
  try { p.SetChromosome(c.begin() + off, c.begin() + off + k); } catch (const std::exception&) { t = true; }
  sym_assert(t, "chromosome range of a wrong length accepted for encoding");
  sym_assert(sameBits(c, in), "bits were written before the length was rejected");
  t = false;
  try { p.SetFromChromosome(c.begin() + off, c.begin() + off + k); } catch (const std::exception&) { t = true; }
  sym_assert(t, "chromosome range of a wrong length accepted for decoding");
  sym_assert(sameBits(c, in), "decoding wrote to the chromosome");
  Chr after = chrOf(p); sym_assert(sameBits(before, after), "parameters changed although the length was rejected");
  sym_assert((p.CheckConstraints() ? 1 : 0) == (ok ? 1 : 0), "constraint verdict changed although the length was rejected");
  sym_cover("rejected");
}
ENTRY(c04_int) { static const int R[][2] = {{0, 0}, {-3, 7}, {10, 60}}; int i = sym_choice("range", 3); IntParameter p(sym_int("value", R[i][0], R[i][1]), R[i][0], R[i][1]); wrongSizes(p); }
ENTRY(c04_double) { DoubleParameter p(sym_choice("v", 3) * 0.5, 0, 1, 0.1); wrongSizes(p); }
ENTRY(c04_array) { size_t m = sym_choice("count", 3); DoubleParametersArray p(0, 1, 0.3, m); std::vector<double> v(m); for (size_t i = 0; i < m; i++) v[i] = 0.25 * sym_choice("v", 3); p.SetValues(v); wrongSizes(p); std::vector<double> w = p.get_values(); }
ENTRY(c04_composite) {
  CompositeDiscreteParameters c; std::vector<Ptr> s; int k = sym_choice("parts", 3);
  if (k > 0) s.push_back(Ptr(new IntParameter(sym_int("a", -3, 7), -3, 7)));
  if (k > 1) { CompositeDiscreteParameters* in = new CompositeDiscreteParameters; Ptr p(in); std::vector<Ptr> t; t.push_back(Ptr(new IntParameter(sym_int("b", 0, 3), 0, 3))); in->Initialize(t); s.push_back(p); }
  c.Initialize(s); wrongSizes(c);
}
ENTRY(c04_values) {
  static const double B[][2] = {{0, 1}, {1, 2}, {-2.5, -1.25}}; int b = sym_choice("bounds", 3); double lo = B[b][0], hi = B[b][1];
  size_t m = sym_choice("count", 4), k = sym_choice("given", 5);
  DoubleParametersArray p(lo, hi, 0.25, m); std::vector<double> v(m), w(k);
  for (size_t i = 0; i < m; i++) v[i] = sym_double("old", lo, hi);
  p.SetValues(v);
  int in = 1; for (size_t i = 0; i < k; i++) { w[i] = sym_double_any("value"); in = sym_and(in, sym_and(lo <= w[i], w[i] <= hi)); }
  bool t = false;
  try { p.SetValues(w); } catch (const std::exception&) { t = true; }
  std::vector<double> g = p.get_values(); sym_assert(g.size() == m, "number of parameters changed");
  if (k != m) { sym_assert(t, "a vector of the wrong length is accepted"); sym_cover("length"); }
  else if (in) { sym_assert(!t, "values of the bounds are refused"); sym_cover("accepted"); for (size_t i = 0; i < m; i++) sym_assert(g[i] == w[i], "value not stored"); sym_assert(p.CheckConstraints(), "values of the bounds reported out of constraints"); return; }
  else { sym_assert(t, "a value outside the bounds is accepted"); sym_cover("outside"); }
  for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "rejected values changed the parameters");
  sym_assert(p.CheckConstraints(), "rejected values changed the constraint verdict");
}
ENTRY(c04_continuous) {
  size_t m = sym_choice("count", 4), k = sym_choice("given", 5); std::vector<double> v(m), w(k);
  for (size_t i = 0; i < m; i++) v[i] = sym_double("old", -1e6, 1e6); for (size_t i = 0; i < k; i++) w[i] = sym_double("new", -1e6, 1e6);
  ContinuousParametersArray a(v), z(m); std::vector<double> g = a.GetValues(), h; sym_assert(g.size() == m && z.GetValues().size() == m, "wrong length");
  for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "constructed value differs");
  bool t = THROWS(a.SetValues(w)); sym_assert(t == (k != m), "length check wrong"); h = a.GetValues(); sym_assert(h.size() == m, "length changed");
  for (size_t i = 0; i < m; i++) sym_assert(h[i] == (k == m ? w[i] : v[i]), "value neither kept nor set");
  if (t) sym_cover("rejected"); else sym_cover("accepted");
}
ENTRY(c04_uninitialised) {
  CompositeDiscreteParameters c; Chr x = symBits(3), y(x);
  size_t k = sym_choice("length", 4);
  sym_assert(THROWS(c.GetChromosomeSize()), "uninitialised composite has a chromosome size");
  sym_assert(THROWS(c.CheckConstraints()), "uninitialised composite checks constraints");
  sym_assert(THROWS(c.SetChromosome(x.begin(), x.begin() + k)), "uninitialised composite encodes");
  sym_assert(THROWS(c.SetFromChromosome(x.begin(), x.begin() + k)), "uninitialised composite decodes");
  sym_assert(THROWS(c.GetNumberOfParameters()), "uninitialised composite counts its parts");
  sym_assert(THROWS(c.GetParameter(sym_choice("i", 2))), "uninitialised composite hands out a part");
  sym_assert(THROWS(delete c.Clone()), "uninitialised composite clones");
  sym_assert(sameBits(x, y), "uninitialised composite wrote bits");
  // still usable afterwards
  c.Initialize(Ptr(new IntParameter(0, 3)), 2); sym_assert(c.GetChromosomeSize() == 4, "composite unusable after being used too early"); sym_cover("done");
}
ENTRY(c04_twice) {
  CompositeDiscreteParameters c; int v = sym_int("v", -3, 7), w = sym_int("w", 0, 100); size_t m = sym_choice("count", 3), k = sym_choice("again", 4);
  if (sym_choice("first", 2)) c.Initialize(Ptr(new IntParameter(v, -3, 7)), m); else { std::vector<Ptr> s(m); for (size_t i = 0; i < m; i++) s[i].reset(new IntParameter(v, -3, 7)); c.Initialize(s); }
  Chr before = chrOf(c); bool t;
  if (sym_choice("second", 2)) t = THROWS(c.Initialize(Ptr(new IntParameter(w, 0, 100)), k)); else { std::vector<Ptr> s(k); for (size_t i = 0; i < k; i++) s[i].reset(new IntParameter(w, 0, 100)); t = THROWS(c.Initialize(s)); }
  sym_assert(t, "a second initialisation is accepted");
  sym_assert(c.GetNumberOfParameters() == m, "a rejected initialisation replaced the parts");
  for (size_t i = 0; i < m; i++) sym_assert(valueOf(c.GetParameter(i)) == v, "a rejected initialisation changed a part");
  Chr after = chrOf(c); sym_assert(sameBits(before, after), "a rejected initialisation changed the chromosome"); sym_cover("done");
}
