/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "linear: every pair of doubles as the range for the rejection of invalid ranges (NaN and infinities included), counts 0..8; logarithmic: every pair of ints for the rejection of invalid ranges, 40 ranges of up to 8 exponents for the values",
 "assumptions": ["increase and end point of linear scales: arithmetic over the reals, within 1e-9 relative"],
 "entries": [
  {"name": "c37_linear_range", "opts": "overflow,ms=30000", "covers": ["accepted", "rejected"], "bounds": "every pair of doubles, counts 0..4"},
  {"name": "c37_linear", "opts": "real", "covers": ["done"], "bounds": "ranges within [1e-6, 1e6], counts 2..8"},
  {"name": "c37_linear_many", "opts": "real", "covers": ["done"], "bounds": "ranges within [1e-3, 1e3], counts 9, 16, 33, 65, 100, 129, 257, 400"},
  {"name": "c37_log_many", "opts": "overflow", "covers": ["done"], "bounds": "all representable powers of two, and ranges of 17, 32, 65 and 130 exponents"},
  {"name": "c37_log_reject", "opts": "overflow", "covers": ["rejected"], "bounds": "every pair of ints that is no valid range"},
  {"name": "c37_log", "opts": "overflow", "covers": ["done"], "bounds": "exponents from -1074 to 1023 in 14 places, 2..8 values"}
 ]}
*/
#include "util.h"
#include "sym.h"
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
using namespace k52::dsp;
ENTRY(c37_linear_range) {
  double lo = sym_double_any("min"), hi = sym_double_any("max"); size_t n = sym_choice("count", 5); int ok = sym_and(sym_and(lo > 0, lo < hi), sym_and(hi <= DBL_MAX, n >= 2));
  bool threw = false; size_t size = 0; double first = 0; try { LinearScale s(lo, hi, n); std::vector<double> v = s.GetScales(); size = v.size(); if (size) first = v[0]; } catch (const std::exception&) { threw = true; }
  if (threw) { sym_assert(!ok, "a valid range is rejected"); sym_cover("rejected"); return; }
  sym_assert(ok, "an invalid range or count is accepted"); sym_assert(size == n, "not the requested number of scales"); sym_assert(first == lo, "the first scale is not the smallest one"); sym_cover("accepted");
}
ENTRY(c37_linear) {
  double lo = sym_double("min", 1e-6, 1e6), hi = sym_double("max", 1e-6, 1e6); sym_assume(lo < hi); size_t n = 2 + sym_choice("count", 7); LinearScale s(lo, hi, n); std::vector<double> v = s.GetScales(), w = s.GetScales(); sym_assert(v.size() == n, "not the requested number of scales");
  sym_assert(v[0] == lo, "the first scale is not the smallest one"); sym_assert_close(v[n - 1], hi, 1e-9, "the last scale is not the largest one"); for (size_t i = 0; i + 1 < n; i++) sym_assert(v[i] < v[i + 1], "scales do not increase"); for (size_t i = 0; i < n; i++) { sym_assert_close(v[i] * (double)(n - 1), lo * (double)(n - 1 - i) + hi * (double)i, 1e-7, "scales are not equidistant"); sym_assert(v[i] == w[i], "a scale changes between two calls"); sym_observe("s", v[i]); } sym_cover("done");
}
ENTRY(c37_log_reject) { int lo = sym_int("min", INT_MIN, INT_MAX), hi = sym_int("max", INT_MIN, INT_MAX); sym_assume(sym_or(lo >= hi, sym_or(lo < -1074, hi > 1023))); sym_assert(THROWS(LogarithmicScale s(lo, hi)), "an invalid range of exponents is accepted"); sym_cover("rejected"); }
ENTRY(c37_log) {
  static const int E[] = {-1074, -1073, -1030, -1023, -1022, -60, -3, -1, 0, 1, 5, 40, 1015, 1016}; int lo = E[sym_choice("min", 14)], n = 2 + sym_choice("count", 7); LogarithmicScale s(lo, lo + n - 1); std::vector<double> v = s.GetScales(); sym_assert((int)v.size() == n, "not one scale per exponent");
  for (int i = 0; i < n; i++) { sym_assert(v[i] == std::ldexp(1.0, lo + i), "a scale is not the power of two of its exponent"); if (i) sym_assert(v[i] > v[i - 1], "scales do not increase"); } sym_cover("done");
}
ENTRY(c37_linear_many) {
  static const int K[] = {9, 16, 33, 65, 100, 129, 257, 400}; size_t n = K[sym_choice("count", 8)]; double lo = sym_double("min", 1e-3, 1e3), hi = sym_double("max", 1e-3, 1e3); sym_assume(lo < hi); LinearScale s(lo, hi, n); std::vector<double> v = s.GetScales(); sym_assert(v.size() == n, "not the requested number of scales");
  sym_assert(v[0] == lo, "the first scale is not the smallest one"); sym_assert_close(v[n - 1], hi, 1e-9, "the last scale is not the largest one"); for (size_t i = 0; i + 1 < n; i += i < 20 || i + 20 > n ? 1 : 7) sym_assert(v[i] < v[i + 1], "scales do not increase");
  for (size_t i = 1; i < n; i += 5) sym_assert_close(v[i] * (double)(n - 1), lo * (double)(n - 1 - i) + hi * (double)i, 1e-7, "scales are not equidistant"); sym_cover("done");
}
ENTRY(c37_log_many) {
  static const int E[][2] = {{-1074, 1023}, {0, 16}, {-16, 15}, {-5, 59}, {-70, 59}, {900, 1023}}; const int* e = E[sym_choice("range", 6)]; LogarithmicScale s(e[0], e[1]); std::vector<double> v = s.GetScales(); sym_assert((int)v.size() == e[1] - e[0] + 1, "not one scale per exponent"); int ok = 1; for (size_t i = 0; i < v.size(); i++) ok &= v[i] == std::ldexp(1.0, e[0] + (int)i); sym_assert(ok, "a scale is not the power of two of its exponent"); sym_cover("done");
}
