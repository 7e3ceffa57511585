/*CHECK
{"sources": ["common", "optimization/params", "src/optimization/initialization_checker.cpp"], "ubsan": true,
 "bounds": "every built-in parameter class, nested composites, all values / chromosomes of the chosen intervals, one later modification of either object, either destroyed first",
 "entries": [
  {"name": "c05_int", "opts": "overflow", "covers": ["cloned"], "bounds": "all of int for bounds and value"},
  {"name": "c05_double", "opts": "overflow", "covers": ["cloned"]},
  {"name": "c05_array", "opts": "overflow", "covers": ["cloned"]},
  {"name": "c05_array_values", "opts": "overflow", "covers": ["cloned"], "bounds": "all doubles of the bounds"},
  {"name": "c05_composite", "opts": "overflow", "covers": ["cloned"]},
  {"name": "c05_continuous", "opts": "overflow", "covers": ["cloned"], "bounds": "every bit pattern of double"}
 ]}
*/
#include "params_util.h"
typedef IDiscreteParameters::shared_ptr Ptr;
static IDiscreteParameters* clone(IDiscreteParameters* p) { return p->Clone(); }
// p holds some state; checks chromosome equality and independence under a decode of fresh bits into either
static void viaChromosome(IDiscreteParameters* p) {
  Chr a = chrOf(*p); bool ok = p->CheckConstraints(); size_t n = p->GetChromosomeSize();
  IDiscreteParameters* q = clone(p); sym_assert(q != p, "clone is the object itself");
  sym_assert(q->GetChromosomeSize() == n, "clone has another chromosome size");
  Chr b = chrOf(*q); sym_assert(sameBits(a, b), "clone has another chromosome"); sym_assert(q->CheckConstraints() == ok, "clone has another constraint verdict");
  int who = sym_choice("changed", 2); IDiscreteParameters *chg = who ? q : p, *keep = who ? p : q;
  Chr f = symBits(n, "fresh"); chg->SetFromChromosome(f.begin(), f.end());
  Chr k = chrOf(*keep); sym_assert(sameBits(a, k), "changing one of original and clone changes the other"); sym_assert(keep->CheckConstraints() == ok, "constraint verdict shared");
  Chr g = chrOf(*chg); sym_assert(sameBits(f, g), "object not settable after cloning");
  delete chg; Chr l = chrOf(*keep); sym_assert(sameBits(a, l), "destroying one of original and clone damages the other");
  keep->SetFromChromosome(f.begin(), f.end()); Chr h = chrOf(*keep); sym_assert(sameBits(f, h), "survivor not usable"); delete keep; sym_cover("cloned");
}
ENTRY(c05_int) {
  int lo = sym_int("min", INT_MIN, INT_MAX), hi = sym_int("max", INT_MIN, INT_MAX), v = sym_int("value", INT_MIN, INT_MAX), w = sym_int("new", INT_MIN, INT_MAX); sym_assume(lo <= hi);
  IntParameter* p = new IntParameter(v, lo, hi); if (sym_choice("set", 2)) { p->set_value(w); v = w; }
  IntParameter* q = p->Clone();
  sym_assert(sym_and(q->get_value() == v, sym_and(q->get_min_value() == lo, q->get_max_value() == hi)), "clone has another value or bounds");
  sym_assert(q->CheckConstraints() == p->CheckConstraints(), "clone has another constraint verdict"); sym_assert(q->GetChromosomeSize() == p->GetChromosomeSize(), "clone has another chromosome size");
  sym_assert(p->HasSameMetaParameters(q), "clone has other meta parameters");
  q->set_value(w); sym_assert(p->get_value() == v, "clone shares its value with the original");
  p->set_value(lo); sym_assert(q->get_value() == w, "clone shares its value with the original"); delete p;
  sym_assert(sym_and(q->get_value() == w, q->get_max_value() == hi), "clone does not outlive the original"); delete q; sym_cover("cloned");
}
ENTRY(c05_double) {
  static const double B[][3] = {{0, 1, 0.1}, {-5.5, 3.25, 0.3}, {1, 2, 0.5}}; const double* b = B[sym_choice("conf", 3)];
  DoubleParameter* p = new DoubleParameter(b[0], b[0], b[1], b[2]); Chr c = symBits(p->GetChromosomeSize()); p->SetFromChromosome(c.begin(), c.end()); double v = p->GetValue(), st = p->get_actual_precision();
  DoubleParameter* q = p->Clone(); sym_assert(q->GetValue() == v, "clone has another value");
  sym_assert(q->get_min_value() == b[0] && q->get_max_value() == b[1] && q->get_actual_precision() == st, "clone has other bounds or precision"); sym_assert(p->HasSameMetaParameters(q), "clone has other meta parameters"); delete q;
  viaChromosome(p);
}
ENTRY(c05_array) { DoubleParametersArray* p = new DoubleParametersArray(0, 1, 0.5, sym_choice("count", 4)); Chr c = symBits(p->GetChromosomeSize()); p->SetFromChromosome(c.begin(), c.end());
  std::vector<double> v = p->get_values(); DoubleParametersArray* q = p->Clone(); sym_assert(q->GetChromosomeSize() == p->GetChromosomeSize(), "size"); int who = sym_choice("changed", 2); DoubleParametersArray *chg = who ? q : p, *keep = who ? p : q;
  sym_assert(q->get_number_of_parameters() == v.size() && q->get_min_value() == 0 && q->get_max_value() == 1 && q->get_actual_precision() == p->get_actual_precision(), "clone has other bounds, precision or length"); sym_assert(p->HasSameMetaParameters(q), "clone has other meta parameters");
  Chr f = symBits(c.size(), "fresh"); chg->SetFromChromosome(f.begin(), f.end()); std::vector<double> w = keep->get_values(); for (size_t i = 0; i < v.size(); i++) sym_assert(v[i] == w[i], "changing one of original and clone changes the other");
  keep->CheckConstraints(); delete chg; w = keep->get_values(); for (size_t i = 0; i < v.size(); i++) sym_assert(v[i] == w[i], "destroying one damages the other"); keep->SetFromChromosome(f.begin(), f.end()); delete keep; sym_cover("cloned"); }
ENTRY(c05_array_values) {
  size_t m = 2; DoubleParametersArray* p = new DoubleParametersArray(-1, 3, 0.5, m); std::vector<double> v(m), w(m); for (size_t i = 0; i < m; i++) { v[i] = sym_double("v", -1, 3); w[i] = sym_double("w", -1, 3); }
  p->SetValues(v); DoubleParametersArray* q = p->Clone(); std::vector<double> g = q->get_values(); for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "clone has other values");
  int who = sym_choice("changed", 2); DoubleParametersArray *chg = who ? q : p, *keep = who ? p : q; chg->SetValues(w); g = keep->get_values(); for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "changing one of original and clone changes the other");
  g = chg->get_values(); for (size_t i = 0; i < m; i++) sym_assert(g[i] == w[i], "value not set"); delete chg; g = keep->get_values(); for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "destroying one damages the other"); sym_assert(keep->CheckConstraints(), "verdict"); delete keep; sym_cover("cloned");
}
ENTRY(c05_composite) {
  CompositeDiscreteParameters* c = new CompositeDiscreteParameters; std::vector<Ptr> s; int k = sym_choice("parts", 3);
  s.push_back(Ptr(new IntParameter(sym_int("a", -3, 7), -3, 7)));
  if (k > 0) { CompositeDiscreteParameters* in = new CompositeDiscreteParameters; Ptr p(in); std::vector<Ptr> t; t.push_back(Ptr(new IntParameter(sym_int("b", 0, 3), 0, 3))); t.push_back(Ptr(new IntParameter(sym_int("d", -1, 0), -1, 0))); in->Initialize(t); s.push_back(p); }
  if (k > 1) s.push_back(Ptr(new DoubleParameter(0.5, 0, 1, 0.5)));
  c->Initialize(s);
  // parts were copied in: changing the sources must not show
  Chr before = chrOf(*c); static_cast<IntParameter*>(s[0].get())->set_value(sym_int("later", -3, 7)); Chr aft = chrOf(*c); sym_assert(sameBits(before, aft), "composite shares its parts with the ones it was made from");
  // parts of a clone are not the parts of the original
  CompositeDiscreteParameters* d = c->Clone(); int x = sym_int("part", -3, 7); static_cast<IntParameter*>(d->GetParameter(0).get())->set_value(x); aft = chrOf(*c); sym_assert(sameBits(before, aft), "clone shares a part with the original"); sym_assert(d->GetNumberOfParameters() == c->GetNumberOfParameters(), "clone has another number of parts"); delete d;
  // a verdict of violated constraints is cloned as well
  static_cast<IntParameter*>(c->GetParameter(0).get())->set_value(sym_int("any", -3, 12)); viaChromosome(c);
}
ENTRY(c05_continuous) {
  size_t m = sym_choice("count", 4); std::vector<double> v(m), w(m); for (size_t i = 0; i < m; i++) { v[i] = sym_double_any("v"); w[i] = sym_double_any("w"); sym_assume(sym_and(v[i] == v[i], w[i] == w[i])); }
  ContinuousParametersArray* p = new ContinuousParametersArray(v); ContinuousParametersArray* q = p->Clone(); std::vector<double> g = q->GetValues(); sym_assert(g.size() == m, "clone has another length"); for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "clone has other values");
  int who = sym_choice("changed", 2); ContinuousParametersArray *chg = who ? q : p, *keep = who ? p : q; chg->SetValues(w); g = keep->GetValues(); for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "changing one of original and clone changes the other"); delete chg; g = keep->GetValues(); for (size_t i = 0; i < m; i++) sym_assert(g[i] == v[i], "destroying one damages the other"); sym_assert(keep->CheckConstraints(), "verdict"); delete keep; sym_cover("cloned");
}
