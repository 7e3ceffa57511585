/*CHECK
{"sources": ["common"], "ubsan": true,
 "bounds": "every value rand() may return; discrete: all pairs of 32-bit bounds, each of up to 9 values reachable in 5 ranges and (in the widest range) any 32-bit value; continuous: 6 intervals in IEEE semantics; 70 consecutive random bits",
 "entries": [
  {"name": "c10_discrete", "opts": "overflow,ms=60000", "covers": ["drawn"], "bounds": "all bounds, min <= max"},
  {"name": "c10_discrete_reach", "opts": "overflow", "covers": ["drawn"], "bounds": "5 concrete ranges, every value in them"},
  {"name": "c10_discrete_wide", "opts": "overflow,ms=60000", "covers": ["reached"], "bounds": "full int range, each of 40 bit patterns"},
  {"name": "c10_continuous", "opts": "overflow,ms=20000", "covers": ["drawn", "min", "max"], "bounds": "6 concrete intervals, every rand()"},
  {"name": "c10_continuous_sym", "opts": "real,ms=30000", "covers": ["drawn"], "bounds": "symbolic interval (reals)"},
  {"name": "c10_vector", "opts": "overflow,ms=20000", "covers": ["drawn"], "bounds": "vectors of 0..3 elements"},
  {"name": "c10_base", "opts": "overflow,ms=60000", "covers": ["drawn"]},
  {"name": "c10_event", "opts": "overflow,ms=60000", "covers": ["happened", "not", "rejected"], "bounds": "every double as probability, every rand() for 0 and 1"},
  {"name": "c10_event_both", "opts": "overflow,ms=60000", "covers": ["drawn"], "bounds": "5 probabilities strictly between 0 and 1"},
  {"name": "c10_bits", "opts": "overflow", "covers": ["drawn"], "bounds": "70 consecutive bits, each both outcomes"},
  {"name": "c10_bits_pairs", "opts": "overflow", "covers": ["drawn"], "bounds": "first 34 consecutive bits, every pair of neighbours all four outcomes"}
 ]}
*/
#include "random_util.h"
using k52::common::Random;
static Random& R() { return Random::Instance(); }
static void want(const std::string& label, int c) { sym_cover(("expect:" + label).c_str()); sym_assume(c); sym_cover(label.c_str()); }
ENTRY(c10_discrete) {
  int lo = sym_int("min", INT_MIN, INT_MAX), hi = sym_int("max", INT_MIN, INT_MAX); sym_assume(lo <= hi);
  int v = R().GetUniformlyDistributedDiscreteRandomQuantity(lo, hi);
  sym_assert(sym_and(lo <= v, v <= hi), "discrete draw outside its range"); sym_cover("drawn"); sym_observe_int("v", v);
}
ENTRY(c10_discrete_reach) {
  static const int C[][2] = {{0, 0}, {0, 1}, {-2, 3}, {7, 15}, {-1, 0}}; const int* c = C[sym_choice("range", 5)];
  int n = c[1] - c[0] + 1, k = c[0] + sym_choice("value", n); int v = R().GetUniformlyDistributedDiscreteRandomQuantity(c[0], c[1]); sym_cover("drawn");
  want("draw " + std::to_string(k) + " of " + std::to_string(c[0]) + ".." + std::to_string(c[1]), v == k);
}
ENTRY(c10_discrete_wide) {
  int k = sym_choice("value", 40); int t = k < 32 ? (int)(1u << k) : k == 32 ? INT_MIN + 1 : k == 33 ? INT_MAX : k == 34 ? -1 : k == 35 ? 0 : (int)(0x12345678u * (k - 30));
  int v = R().GetUniformlyDistributedDiscreteRandomQuantity(INT_MIN, INT_MAX); want("draw " + std::to_string(t), v == t); sym_cover("reached");
}
static const double I[][2] = {{0, 1}, {-1, 1}, {-0.1, 0.7}, {-5.12, 5.12}, {0.1, 0.3}, {-32.768, -32.767}};
ENTRY(c10_continuous) {
  const double* c = I[sym_choice("interval", 6)]; double v = R().GetContinuousRandomQuantity(c[0], c[1]);
  sym_assert(sym_and(c[0] <= v, v <= c[1]), "continuous draw outside its interval"); sym_cover("drawn"); sym_observe("v", v);
  double w = (c[1] - c[0]) / 4; // every quarter is reachable
  int q = sym_choice("quarter", 4); sym_assume(sym_and(v >= c[0] + q * w, v <= c[0] + (q + 1) * w)); if (q == 0) sym_cover("min"); if (q == 3) sym_cover("max");
}
ENTRY(c10_continuous_sym) {
  double lo = sym_double("min", -1000, 1000), hi = sym_double("max", -1000, 1000); sym_assume(lo <= hi);
  double v = R().GetContinuousRandomQuantity(lo, hi); sym_assert(sym_and(lo <= v, v <= hi), "continuous draw outside its interval"); sym_cover("drawn");
}
ENTRY(c10_vector) {
  size_t n = sym_choice("size", 4); const double* c = I[sym_choice("interval", 2)]; std::vector<double> v = R().GenerateRandomVector(n, c[0], c[1]);
  sym_assert(v.size() == n, "random vector has another size"); for (size_t i = 0; i < n; i++) sym_assert(sym_and(c[0] <= v[i], v[i] <= c[1]), "element outside the interval"); sym_cover("drawn");
  // the elements are separate draws
  if (n > 1) { want("element 0 low, 1 high", sym_and(v[0] < c[0] + 0.1 * (c[1] - c[0]), v[1] > c[0] + 0.9 * (c[1] - c[0]))); }
}
ENTRY(c10_base) { double b = R().GetBaseRandomQuantity(); sym_assert(sym_and(0 <= b, b <= 1), "base quantity outside [0, 1]"); sym_cover("drawn"); int q = sym_choice("part", 8); want("part " + std::to_string(q), sym_and(b >= q / 8.0, b <= (q + 1) / 8.0)); }
ENTRY(c10_event) {
  int k = sym_choice("kind", 3);
  if (k == 0) { sym_assert(!R().CheckEventOutcome(0), "an event of probability 0 happens"); sym_cover("not"); return; }
  if (k == 1) { sym_assert(R().CheckEventOutcome(1), "an event of probability 1 does not happen"); sym_cover("happened"); return; }
  double p = sym_double_any("p"); int ok = sym_and(p >= 0, p <= 1); bool t = THROWS(Random::ValidateProbability(p));
  sym_assert(ok ? !t : t, "validation accepts other values than [0, 1]");
  if (!ok) { sym_assert(THROWS(R().CheckEventOutcome(p)), "an event of invalid probability is drawn"); sym_cover("rejected"); }
}
ENTRY(c10_event_both) {
  static const double P[] = {1e-6, 0.1, 0.5, 0.9, 1 - 1e-6}; double p = P[sym_choice("p", 5)]; int o = sym_choice("outcome", 2);
  bool r = R().CheckEventOutcome(p); sym_cover("drawn"); want("outcome " + std::to_string(o) + " at " + std::to_string(p), r == o);
}
ENTRY(c10_bits) {
  int k = sym_choice("which", 70), o = sym_choice("outcome", 2); bool b = false; for (int i = 0; i <= k; i++) b = R().GetRandomBool();
  sym_cover("drawn"); want("bit " + std::to_string(k) + " is " + std::to_string(o), b == o);
}
ENTRY(c10_bits_pairs) {
  int k = sym_choice("which", 34), o = sym_choice("outcome", 4); bool a = false, b = false; for (int i = 0; i <= k + 1; i++) { a = b; b = R().GetRandomBool(); }
  sym_cover("drawn"); want("bits " + std::to_string(k) + " and next are " + std::to_string(o), sym_and(a == (o & 1), b == (o >> 1)));
}
