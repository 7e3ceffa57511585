/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "signals of 0..6 reals in [-1000, 1000], 1..3 scales, wavelet lengths 2..7, steps 1..3, both scale types; arithmetic over the reals, compared within 1e-6",
 "assumptions": ["arithmetic over the reals, compared within 1e-6", "step >= 1, wavelet length >= 2, 1 <= smallest length <= largest length"],
 "entries": [
  {"name": "c36_value", "opts": "real", "covers": ["done"], "bounds": "signals of 0..5, wavelet lengths 2..5, 1..3 scales, steps 1..3"},
  {"name": "c36_callback", "opts": "real", "covers": ["done"], "bounds": "as above with the result of the wavelet applied at one place"},
  {"name": "c36_grid", "opts": "real", "covers": ["done"], "bounds": "wavelet lengths 2..7, smallest length 1..3, 1..3 scales, both types"},
  {"name": "c36_sign", "opts": "real", "covers": ["done"], "bounds": "signals of 1..3, factors -1, 2, -0.5"},
  {"name": "c36_unready", "opts": "", "covers": ["rejected"]},
  {"name": "c36_long", "opts": "real", "tier": "thorough", "covers": ["done"], "bounds": "signals of 6..12, wavelet lengths 2..9, 1..4 scales, steps 1..4"},
  {"name": "c36_wide", "opts": "real", "covers": ["done"], "bounds": "signals of 17, 40 with two symbolic elements, wavelet lengths 8, 9, 17, 2..9 scales, steps 1, 4"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/cwt.h>
#include <k52/dsp/wavelet.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
using namespace k52::dsp;
struct Line : public IWavelet { virtual Cx GetValue(double t) { return Cx(t + 100, 0); } };
static IWavelet::shared_ptr fn(int k) { if (k == 0) return IWavelet::shared_ptr(new HaarWaveletFunction()); if (k == 1) return IWavelet::shared_ptr(new MhatWaveletFunction()); if (k == 2) return IWavelet::shared_ptr(new MorletWaveletFunction()); return IWavelet::shared_ptr(new Line()); }
static std::vector<double> signal(int n) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(sym_double("x", -1000, 1000)); return v; }
static double scale(int i, int count, int lo, int hi, Wavelet::ScaleType t) { return t == Wavelet::Log ? std::exp(i / (double)count * std::log((double)hi / lo)) : (i + 1) / (double)count * (hi / lo); }
static double arg(int j, int hi, double s) { return (j - hi / 2.0) * s * 4 / (hi / 2); }
static void run(const std::vector<double>& x, int step, int lo, int hi, int count, Wavelet::ScaleType type, int k) {
  int n = x.size(); IWavelet::shared_ptr f = fn(k); Wavelet::shared_ptr w = Wavelet::BuildWavelet(f, lo, hi, count, type); std::vector<double> x0 = x;
  std::vector<std::vector<double> > r = ContiniousWaveletTransformation(x, w, step); int rows = (n + step - 1) / step;
  sym_assert((int)r.size() == rows, "not one row per requested shift"); for (size_t i = 0; i < r.size(); i++) sym_assert((int)r[i].size() == count, "a row has not one value per scale");
  int same = 1; for (int i = 0; i < n; i++) same = sym_and(same, x[i] == x0[i]); sym_assert(same, "the transform modifies its signal");
  for (int a = 0; a < rows && a < (int)r.size(); a++) for (int c = 0; c < count; c++) {
    double s = scale(c, count, lo, hi, type), re = 0, im = 0;
    for (int j = 0; j < hi; j++) { int p = a * step + j - hi / 2; double d = p >= 0 && p < n ? x[p] : 0; Cx v = f->GetValue(arg(j, hi, s)); re += v.real() * d; im += v.imag() * d; }
    double q = re * re + im * im; sym_assert(r[a][c] >= 0, "a modulus is negative"); sym_assert_close(r[a][c] * r[a][c], q, 1e-6, "a value is not the modulus of the signal's product with the shifted, scaled wavelet"); sym_observe("v", r[a][c]);
  }
}
ENTRY(c36_value) { int n = sym_choice("n", 6), hi = 2 + sym_choice("length", 4), step = 1 + sym_choice("step", 3), count = 1 + sym_choice("count", 3); int k = sym_choice("wavelet", 3); run(signal(n), step, 1, hi, count, Wavelet::Log, k); sym_cover("done"); }
ENTRY(c36_long) { int n = 6 + sym_choice("n", 7), hi = 2 + sym_choice("length", 8), step = 1 + sym_choice("step", 4), count = 1 + sym_choice("count", 4); int k = sym_choice("wavelet", 3); run(signal(n), step, 1, hi, count, sym_choice("type", 2) ? Wavelet::Linear : Wavelet::Log, k); sym_cover("done"); }
ENTRY(c36_callback) {
  int hi = 2 + sym_choice("length", 4), count = 1 + sym_choice("count", 2); IWavelet::shared_ptr f = fn(sym_choice("wavelet", 3)); Wavelet::shared_ptr w = Wavelet::BuildWavelet(f, 1, hi, count, Wavelet::Linear); std::vector<double> d = signal(hi);
  std::vector<double> r = w->transform<double>(d.begin()); sym_assert((int)r.size() == count, "not one value per scale");
  for (int c = 0; c < count; c++) { double s = scale(c, count, 1, hi, Wavelet::Linear), re = 0, im = 0; for (int j = 0; j < hi; j++) { Cx v = f->GetValue(arg(j, hi, s)); re += v.real() * d[j]; im += v.imag() * d[j]; } sym_assert(r[c] >= 0, "a modulus is negative"); sym_assert_close(r[c] * r[c], re * re + im * im, 1e-6, "a value is not the modulus of the data's product with the scaled wavelet"); } sym_cover("done");
}
ENTRY(c36_grid) { // a straight line as the wavelet and a unit impulse as the signal show the sampled arguments
  int hi = 2 + sym_choice("length", 6), lo = 1 + sym_choice("smallest", 3), count = 1 + sym_choice("count", 3); if (lo > hi) return; Wavelet::ScaleType ty = sym_choice("type", 2) ? Wavelet::Linear : Wavelet::Log; double a = sym_double("height", 0.5, 10);
  Wavelet::shared_ptr w = Wavelet::BuildWavelet(fn(3), lo, hi, count, ty); std::vector<double> x(hi); int at = sym_choice("at", hi); x[at] = a; std::vector<std::vector<double> > r = ContiniousWaveletTransformation(x, w, 1); sym_assert((int)r.size() == hi, "not one row per shift");
  for (int i = 0; i < hi; i++) for (int c = 0; c < count; c++) { int j = at + hi / 2 - i; double v = j >= 0 && j < hi ? arg(j, hi, scale(c, count, lo, hi, ty)) + 100 : 0; sym_assert_close(r[i][c] * r[i][c], a * a * v * v, 1e-4, "the wavelet is sampled at other arguments"); } sym_cover("done");
}
ENTRY(c36_sign) {
  static const double F[] = {-1, 2, -0.5}; double a = F[sym_choice("factor", 3)]; int n = 1 + sym_choice("n", 3); std::vector<double> x = signal(n), y; for (int i = 0; i < n; i++) y.push_back(a * x[i]); Wavelet::shared_ptr w = Wavelet::BuildWavelet(fn(sym_choice("wavelet", 3)), 1, 4, 2);
  std::vector<std::vector<double> > p = ContiniousWaveletTransformation(x, w, 1), q = ContiniousWaveletTransformation(y, w, 1); sym_assert(p.size() == q.size(), "rows differ"); for (size_t i = 0; i < p.size(); i++) for (size_t c = 0; c < p[i].size(); c++) sym_assert_close(q[i][c] * q[i][c], a * a * p[i][c] * p[i][c], 1e-6, "scaling the signal does not scale the values"); sym_cover("done");
}
ENTRY(c36_unready) { bool t = false; try { Wavelet::shared_ptr w = Wavelet::BuildWavelet(IWavelet::shared_ptr(), 1, 4, 2); } catch (...) { t = true; } sym_assert(t, "a wavelet without a function is built"); sym_cover("rejected"); }
ENTRY(c36_wide) {
  static const int N[] = {17, 40}, L[] = {8, 9, 17}; int n = N[sym_choice("n", 2)], hi = L[sym_choice("length", 3)], c = sym_choice("count", 2) ? 9 : 2, k = sym_choice("wavelet", 3), step = sym_choice("step", 2) ? 4 : 1; std::vector<double> x(n, 0.); int at = sym_choice("at", 2) ? n - 2 : n / 2; x[at] = sym_double("x", -1000, 1000); x[at + 1] = sym_double("x", -1000, 1000);
  run(x, step, 1, hi, c, c == 9 ? Wavelet::Linear : Wavelet::Log, k); sym_cover("done");
}
