/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp"], "ubsan": true,
 "bounds": "composites of up to 5 integer parameters (one nested level) with every value of their intervals and every chromosome; DoubleParametersArray of 3 x 2..5 bits with every chromosome, values of the bounds in error-bounded reals",
 "entries": [
  {"name": "c03_composite", "opts": "overflow", "covers": ["set"], "bounds": "4 integer parts in 2 nested levels, all values, any part changed"},
  {"name": "c03_composite_decode", "opts": "overflow", "covers": ["in", "out"], "bounds": "all chromosomes"},
  {"name": "c03_sample", "opts": "overflow", "covers": ["set"], "bounds": "0..4 copies of one integer parameter, all values"},
  {"name": "c03_array_decode", "opts": "overflow", "covers": ["decoded"], "bounds": "4 configurations of 1..3 doubles, all chromosomes (IEEE)"},
  {"name": "c03_array_reencode", "opts": "round,overflow", "covers": ["encoded"], "bounds": "as c03_array_decode, error-bounded reals"},
  {"name": "c03_array_set", "opts": "round,overflow", "covers": ["set"], "bounds": "4 configurations of 1..3 doubles, all values in the bounds"},
  {"name": "c03_mixed", "opts": "overflow", "covers": ["mixed"], "bounds": "composite of an integer, a double parameter and a double array, all chromosomes (IEEE)"},
  {"name": "c03_many", "opts": "overflow", "covers": ["done"], "bounds": "8, 9, 17, 33, 40 parts, any one free"},
  {"name": "c03_array_many", "opts": "real", "covers": ["done"], "bounds": "arrays of 8, 9, 17, 33, 40 elements, any one free"}
 ]}
*/
#include "params_util.h"
static const int R[4][2] = {{-3, 7}, {0, 0}, {10, 70}, {-100, -93}};
typedef IDiscreteParameters::shared_ptr Ptr;
static Ptr ip(int v, const int* r) { return Ptr(new IntParameter(v, r[0], r[1])); }
static int symIn(const char* n, const int* r) { return sym_int(n, r[0], r[1]); }
static void build(CompositeDiscreteParameters& outer, const int* v) {   // (p0, (p1, p2), p3)
  CompositeDiscreteParameters* in = new CompositeDiscreteParameters; Ptr pin(in);
  std::vector<Ptr> s; s.push_back(ip(v[1], R[1])); s.push_back(ip(v[2], R[2])); in->Initialize(s);
  std::vector<Ptr> t; t.push_back(ip(v[0], R[0])); t.push_back(pin); t.push_back(ip(v[3], R[3])); outer.Initialize(t);
}
static void parts(const CompositeDiscreteParameters& o, IntParameter** p) {
  CompositeDiscreteParameters* in = static_cast<CompositeDiscreteParameters*>(o.GetParameter(1).get());
  p[0] = static_cast<IntParameter*>(o.GetParameter(0).get()); p[1] = static_cast<IntParameter*>(in->GetParameter(0).get());
  p[2] = static_cast<IntParameter*>(in->GetParameter(1).get()); p[3] = static_cast<IntParameter*>(o.GetParameter(2).get());
}
ENTRY(c03_composite) {
  int v[4], w[4]; for (int i = 0; i < 4; i++) v[i] = symIn("v", R[i]);
  CompositeDiscreteParameters a, b; build(a, v);
  for (int i = 0; i < 4; i++) w[i] = R[i][0]; build(b, w);
  IntParameter *pa[4], *pb[4]; parts(a, pa); parts(b, pb);
  size_t n = 0, at[5]; for (int i = 0; i < 4; i++) { at[i] = n; n += pa[i]->GetChromosomeSize(); } at[4] = n;
  sym_assert(a.GetChromosomeSize() == n, "composite chromosome is not as long as its parts");
  sym_assert(a.GetNumberOfParameters() == 3, "wrong number of parts");
  Chr c = chrOf(a);
  for (int i = 0; i < 4; i++) sym_assert(pa[i]->get_value() == v[i], "encoding changed a value");
  b.SetFromChromosome(c.begin(), c.end());
  for (int i = 0; i < 4; i++) sym_assert(pb[i]->get_value() == v[i], "a part is not restored");
  // the part's own chromosome is its slice
  for (int i = 0; i < 4; i++) { Chr s = chrOf(*pa[i]); int e = 1; for (size_t k = 0; k < s.size(); k++) e = sym_and(e, (bool)s[k] == (bool)c[at[i] + k]); sym_assert(e, "a part's bits are not its own chromosome"); }
  // change one part
  int j = sym_choice("part", 4); int x = symIn("new", R[j]);
  pa[j]->set_value(x); Chr d = chrOf(a);
  sym_assert(sameBits(c, d, 0, at[j]), "changing one part changes bits before it");
  sym_assert(sameBits(c, d, at[j + 1], n), "changing one part changes bits behind it");
  // overwritten buffers do not leak stale bits
  Chr e(n, true); a.SetChromosome(e.begin(), e.end()); sym_assert(sameBits(d, e), "stale bits remain in the range written to");
  // constraints: every part
  int y = sym_int("any", -2000, 2000); pb[j]->set_value(y);
  sym_assert((b.CheckConstraints() ? 1 : 0) == (R[j][0] <= y && y <= R[j][1] ? 1 : 0), "constraint verdict is not that of the parts");
  sym_cover("set"); sym_observe_int("n", n);
}
ENTRY(c03_composite_decode) {
  int z[4]; for (int i = 0; i < 4; i++) z[i] = R[i][0];
  CompositeDiscreteParameters a; build(a, z); IntParameter* p[4]; parts(a, p);
  size_t n = a.GetChromosomeSize(); Chr c = symBits(n);
  a.SetFromChromosome(c.begin(), c.end());
  size_t at = 0; int all = 1, val[4];
  for (int i = 0; i < 4; i++) {
    size_t k = p[i]->GetChromosomeSize(); IntParameter q(R[i][0], R[i][1]); q.SetFromChromosome(c.begin() + at, c.begin() + at + k);
    sym_assert(p[i]->get_value() == q.get_value(), "a part decodes other bits than its own");
    all = sym_and(all, q.get_value() >= R[i][0] && q.get_value() <= R[i][1]); val[i] = q.get_value(); at += k;
  }
  sym_assert((a.CheckConstraints() ? 1 : 0) == all, "constraint verdict is not that of all parts");
  Chr d = chrOf(a); sym_assert(sameBits(c, d), "decode then encode changes the chromosome");
  // flip one bit: only the part it belongs to may change
  int f = sym_concretize(sym_int("flip", 0, (int)n - 1)); c[f] = !c[f]; a.SetFromChromosome(c.begin(), c.end());
  at = 0; for (int i = 0; i < 4; i++) { size_t k = p[i]->GetChromosomeSize(); int mine = (size_t)f >= at && (size_t)f < at + k; sym_assert(mine ? p[i]->get_value() != val[i] : p[i]->get_value() == val[i], "a changed bit changes another part than its own"); at += k; }
  if (all) sym_cover("in"); else sym_cover("out");
}
ENTRY(c03_sample) {
  int m = sym_choice("count", 5); const int* r = R[0]; int s = symIn("sample", r);
  Ptr sample = ip(s, r); CompositeDiscreteParameters a; a.Initialize(sample, m);
  sym_assert(a.GetNumberOfParameters() == (size_t)m, "wrong number of parts"); sym_assert(a.GetChromosomeSize() == m * sample->GetChromosomeSize(), "wrong chromosome size");
  for (int i = 0; i < m; i++) { sym_assert(valueOf(a.GetParameter(i)) == s, "a copy differs from the sample"); static_cast<IntParameter*>(a.GetParameter(i).get())->set_value(symIn("v", r)); }
  int v[4]; for (int i = 0; i < m; i++) v[i] = valueOf(a.GetParameter(i));
  static_cast<IntParameter*>(sample.get())->set_value(r[1]);
  Chr c = chrOf(a); CompositeDiscreteParameters b; b.Initialize(sample, m); b.SetFromChromosome(c.begin(), c.end());
  for (int i = 0; i < m; i++) { sym_assert(valueOf(b.GetParameter(i)) == v[i], "a copy is not restored"); sym_assert(valueOf(a.GetParameter(i)) == v[i], "copies share state"); }
  sym_assert(THROWS(a.GetParameter(m)), "part behind the last one handed out");
  sym_cover("set");
}
static const double D[4][4] = {{0, 1, 0.3, 3}, {-5, 5, 1.5, 2}, {1, 2, 0.25, 2}, {-0.3, 1.1, 0.1, 1}};
static void arrayDecode(int reencode) {
  const double* d = D[sym_choice("conf", 4)]; size_t m = (size_t)d[3];
  DoubleParametersArray a(d[0], d[1], d[2], m); DoubleParameter one(d[0], d[0], d[1], d[2]);
  size_t k = one.GetChromosomeSize(); sym_assert(a.GetChromosomeSize() == k * m, "wrong chromosome size");
  Chr c = symBits(k * m); a.SetFromChromosome(c.begin(), c.end()); std::vector<double> v = a.get_values();
  for (size_t i = 0; i < m; i++) { one.SetFromChromosome(c.begin() + i * k, c.begin() + (i + 1) * k); sym_assert(v[i] == one.GetValue(), "an element decodes other bits than its own"); }
  if (!reencode) sym_assert(a.CheckConstraints(), "a decoded array reports violated constraints");
  if (reencode) { Chr e = chrOf(a); sym_assert(sameBits(c, e), "decode then encode changes the chromosome"); sym_cover("encoded"); return; }
  sym_cover("decoded"); for (size_t i = 0; i < m; i++) sym_observe("v", v[i]);
}
ENTRY(c03_array_decode) { arrayDecode(0); }
ENTRY(c03_array_reencode) { arrayDecode(1); }
ENTRY(c03_array_set) {
  const double* d = D[sym_choice("conf", 4)]; size_t m = (size_t)d[3];
  DoubleParametersArray a(d[0], d[1], d[2], m), b(d[0], d[1], d[2], m); std::vector<double> v(m); double step = a.get_actual_precision();
  for (size_t i = 0; i < m; i++) v[i] = sym_double("v", d[0], d[1]);
  a.SetValues(v); std::vector<double> g = a.get_values();
  for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "a value set is not the value read");
  Chr c = chrOf(a); b.SetFromChromosome(c.begin(), c.end()); std::vector<double> w = b.get_values();
  for (size_t i = 0; i < m; i++) { double e = w[i] - v[i]; sym_assert(sym_and(-1.000001 * step <= e, e <= 1.000001 * step), "an element is not restored within a grid step"); }
  // change one element
  size_t j = sym_choice("part", (int)m); v[j] = sym_double("new", d[0], d[1]); a.SetValues(v); Chr e = chrOf(a); size_t k = e.size() / m;
  sym_assert(sameBits(c, e, 0, j * k), "changing one element changes bits before it"); sym_assert(sameBits(c, e, (j + 1) * k, m * k), "changing one element changes bits behind it");
  sym_cover("set");
}
ENTRY(c03_mixed) {
  CompositeDiscreteParameters a; std::vector<Ptr> s; s.push_back(ip(0, R[0])); s.push_back(Ptr(new DoubleParametersArray(1, 2, 0.25, 2))); s.push_back(Ptr(new DoubleParameter(-5, -5, 5, 1))); a.Initialize(s);
  size_t n = a.GetChromosomeSize(); sym_assert(n == s[0]->GetChromosomeSize() + s[1]->GetChromosomeSize() + s[2]->GetChromosomeSize(), "wrong chromosome size");
  Chr c = symBits(n); a.SetFromChromosome(c.begin(), c.end()); size_t at = 0;
  for (int i = 0; i < 3; i++) { size_t k = s[i]->GetChromosomeSize(); s[i]->SetFromChromosome(c.begin() + at, c.begin() + at + k); at += k; }
  sym_assert(valueOf(a.GetParameter(0)) == valueOf(s[0]), "integer part");
  std::vector<double> u = static_cast<DoubleParametersArray*>(a.GetParameter(1).get())->get_values(), v = static_cast<DoubleParametersArray*>(s[1].get())->get_values();
  sym_assert(sym_and(u[0] == v[0], u[1] == v[1]), "array part");
  sym_assert(static_cast<DoubleParameter*>(a.GetParameter(2).get())->GetValue() == static_cast<DoubleParameter*>(s[2].get())->GetValue(), "double part");
  int ok = s[0]->CheckConstraints(); sym_assert((a.CheckConstraints() ? 1 : 0) == ok, "constraint verdict");
  sym_cover("mixed");
}
ENTRY(c03_many) {
  static const int N[] = {8, 9, 17, 33, 40}; int m = N[sym_choice("parts", 5)], j = sym_choice("part", m); const int* r = R[0]; CompositeDiscreteParameters a, b; a.Initialize(ip(1, r), m); b.Initialize(ip(2, r), m); sym_assert(a.GetNumberOfParameters() == (size_t)m, "wrong number of parts"); int x = symIn("v", r);
  for (int i = 0; i < m; i++) static_cast<IntParameter*>(a.GetParameter(i).get())->set_value(i == j ? x : r[0] + i % (r[1] - r[0] + 1)); Chr c = chrOf(a); sym_assert(c.size() == m * a.GetParameter(0)->GetChromosomeSize(), "wrong chromosome size"); b.SetFromChromosome(c.begin(), c.end()); for (int i = 0; i < m; i++) sym_assert(valueOf(b.GetParameter(i)) == (i == j ? x : r[0] + i % (r[1] - r[0] + 1)), "a part is not restored"); sym_assert(b.CheckConstraints(), "constraint verdict is not that of the parts");
  static_cast<IntParameter*>(b.GetParameter(j).get())->set_value(r[1] + 1); sym_assert(!b.CheckConstraints(), "constraint verdict is not that of the parts"); sym_cover("done");
}
ENTRY(c03_array_many) {
  static const int N[] = {8, 9, 17, 33, 40}; int m = N[sym_choice("parts", 5)], j = sym_choice("part", m); DoubleParametersArray a(-1, 2.5, 0.25, m), b(-1, 2.5, 0.25, m); double step = a.get_actual_precision(); std::vector<double> v(m); for (int i = 0; i < m; i++) v[i] = -1 + step * (i % 4); v[j] = sym_double("v", -1, 2.5); a.SetValues(v); Chr c = chrOf(a); sym_assert(c.size() == a.GetChromosomeSize(), "wrong chromosome size"); b.SetFromChromosome(c.begin(), c.end()); std::vector<double> w = b.get_values(); sym_assert((int)w.size() == m, "wrong number of elements");
  for (int i = 0; i < m; i++) { double e = w[i] - v[i]; sym_assert(sym_and(-1.000001 * step <= e, e <= 1.000001 * step), "an element is not restored within a grid step"); } sym_assert(b.CheckConstraints(), "a decoded array reports violated constraints"); sym_cover("done");
}
