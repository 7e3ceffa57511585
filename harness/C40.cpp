/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "0..40 samples for the domain (every double as the argument), 3..8 symbolic samples in [-100, 100] for the values",
 "assumptions": ["values: arithmetic over the reals, compared within 1e-6"],
 "entries": [
  {"name": "c40_domain", "opts": "overflow", "covers": ["inside", "outside"], "bounds": "3..40 samples, every double as the argument"},
  {"name": "c40_values", "opts": "real,ms=30000", "covers": ["done"], "bounds": "3..8 samples: value at every sample point and at 4"},
  {"name": "c40_outside", "opts": "real,ms=30000", "covers": ["done"], "bounds": "3..8 symbolic samples, every real outside [-4, 4]"},
  {"name": "c40_few", "opts": "overflow", "covers": ["rejected"], "bounds": "0..2 samples"},
  {"name": "c40_line", "opts": "real,ms=30000", "covers": ["done"], "bounds": "6..9 samples of a line, every argument between the inner samples"},
  {"name": "c40_wide", "opts": "overflow", "tier": "thorough", "covers": ["inside", "outside"], "bounds": "3..400 samples, every double as the argument"},
  {"name": "c40_many", "opts": "real", "covers": ["done"], "bounds": "12, 16, 17, 32, 33, 64, 100, 300 samples: all of them at their places, three symbolic"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/akima_wavelet_function.h>
using namespace k52::dsp;
static std::vector<double> syms(int n) { std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(sym_double("y", -100, 100)); return y; }
static std::vector<double> some(int n) { std::vector<double> y; for (int i = 0; i < n; i++) y.push_back((i * 7) % 5 - 1.5); return y; }
static void domain(int n) {
  std::vector<double> y = some(n); IWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(y, y); double t = sym_double_any("t"); bool threw = false; Cx v; try { v = w->GetValue(t); } catch (const std::exception&) { threw = true; }
  sym_assert(!threw, "the wavelet is not defined at some argument"); if (t >= -4 && t <= 4) sym_cover("inside"); else { sym_assert(v.real() == 0, "the wavelet is not zero outside its support"); sym_cover("outside"); } sym_assert(v.imag() == 0, "the wavelet has an imaginary part");
}
ENTRY(c40_domain) { domain(3 + sym_choice("n", 38)); }
ENTRY(c40_wide) { domain(3 + sym_choice("n", 398)); }
ENTRY(c40_values) {
  int n = 3 + sym_choice("n", 6); std::vector<double> y = syms(n); IWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(y, y); int i = sym_choice("i", n + 1); double t = i == n ? 4 : -4 + 8. / n * i; Cx v = w->GetValue(t); sym_assert_close(v.real(), i == n ? 0 : y[i], 1e-6, "the wavelet does not take its sample's value"); sym_observe("v", v.real()); sym_cover("done");
}
ENTRY(c40_outside) { int n = 3 + sym_choice("n", 6); std::vector<double> y = syms(n); IWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(y, y); double t = sym_double("t", -1e9, 1e9); sym_assume(sym_or(t < -4, t > 4)); Cx v = w->GetValue(t); sym_assert(sym_and(v.real() == 0, v.imag() == 0), "the wavelet is not zero outside its support"); sym_cover("done"); }
ENTRY(c40_few) { int n = sym_choice("n", 3); std::vector<double> y = some(n); sym_assert(THROWS(AkimaWavelet::CreateAkimaWavelet(y, y)), "too few samples are accepted"); sym_cover("rejected"); }
ENTRY(c40_line) {
  int n = 6 + sym_choice("n", 4); double a = sym_double("a", -10, 10), b = sym_double("b", -10, 10), d = 8. / n; std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(a * (d * i) + b); IWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(y, y);
  double lo = -4 + d * 2, hi = -4 + d * (n - 3), t = sym_double("t", lo, hi); sym_assert_close(w->GetValue(t).real(), a * (t + 4) + b, 1e-5, "samples of a line are not interpolated by the line"); sym_cover("done");
}
ENTRY(c40_many) {
  static const int N[] = {12, 16, 17, 32, 33, 64, 100, 300}; int n = N[sym_choice("n", 8)], at = sym_choice("at", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 3; std::vector<double> y = some(n); for (int i = 0; i < 3; i++) y[at + i] = sym_double("y", -100, 100); IWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(y, y);
  for (int i = 0; i < n; i++) sym_assert_close(w->GetValue(-4 + 8. / n * i).real(), y[i], 1e-6, "the wavelet does not take its sample's value"); sym_assert(w->GetValue(-4.5) == Cx(0, 0) && w->GetValue(4.5) == Cx(0, 0), "the wavelet is not zero outside its support"); sym_cover("done");
}
