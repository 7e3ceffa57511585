/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "signals of 1..7 complex numbers with parts in [-1000, 1000] as reals, tolerance 1e-6; scales from a list of 10; library wavelets, and for lengths 1, 2, 4 a wavelet whose value at every sampled argument is a free complex number",
 "assumptions": ["FFTW computes the unnormalised forward transform of its plan", "arithmetic over the reals, compared within 1e-6", "for odd lengths the library samples the wavelet half-way between integers; the oracle takes these sample points as they are"],
 "entries": [
  {"name": "c35_library", "opts": "real", "covers": ["done"], "bounds": "lengths 1..7, Haar, Mexican hat, Morlet, 10 scales"},
  {"name": "c35_free", "opts": "real", "covers": ["done"], "bounds": "lengths 1, 2, 4, free wavelet values, 4 scales"},
  {"name": "c35_one", "opts": "real", "covers": ["done", "rejected"], "bounds": "TransformOneScale: lengths 1..5, 6 scales and non-positive ones"},
  {"name": "c35_linear", "opts": "real", "covers": ["done"], "bounds": "lengths 1..5, 2 factors"},
  {"name": "c35_cache", "opts": "real", "covers": ["done"], "bounds": "5 cache limits, 3 calls with two wavelets and two signals of length 2..4"},
  {"name": "c35_mismatch", "opts": "real", "covers": ["rejected"], "bounds": "objects of size 1..3, signals of another size 0..4"},
  {"name": "c35_big", "opts": "real", "tier": "thorough", "covers": ["done"], "bounds": "lengths 8..16, library wavelets, 10 scales"},
  {"name": "c35_long", "opts": "real", "covers": ["done"], "bounds": "lengths 8, 9, 16, 17, 32, 33: two symbolic elements, 3 wavelets, the logarithmic scale"},
  {"name": "c35_rows", "opts": "real", "covers": ["done"], "bounds": "length 4, 8..40 scales in one transform"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
using namespace k52::dsp;
struct Free : public IWavelet { virtual Cx GetValue(double t) { double re = sym_uf("psi_re", 1, &t, -5, 5), im = sym_uf("psi_im", 1, &t, -5, 5); return Cx(re, im); } };
struct Fixed : public IScale { std::vector<double> s; virtual std::vector<double> GetScales() const { return s; } };
static IWavelet::shared_ptr wavelet(int k) { if (k == 0) return IWavelet::shared_ptr(new HaarWaveletFunction()); if (k == 1) return IWavelet::shared_ptr(new MhatWaveletFunction()); if (k == 2) return IWavelet::shared_ptr(new MorletWaveletFunction()); return IWavelet::shared_ptr(new Free()); }
static const double S[] = {1, 0.5, 2, 4, 0.25, 1.5, 3, 8, 0.1, 100};
static IScale::shared_ptr scales(const std::vector<double>& v) { Fixed* f = new Fixed(); f->s = v; return IScale::shared_ptr(f); }
static IScale::shared_ptr some(int k) { // three scales at a time
  if (k == 0) return IScale::shared_ptr(new LogarithmicScale(-1, 2)); if (k == 1) return IScale::shared_ptr(new LinearScale(0.5, 3, 3));
  std::vector<double> v; for (int i = 0; i < 5; i++) v.push_back(S[(k - 2) * 5 + i]); return scales(v);
}
static Seq row(const Seq& x, IWavelet& w, double s) {
  size_t n = x.size(); Seq r(n); double f = std::sqrt(s); for (size_t b = 0; b < n; b++) { Cx sum; for (size_t m = 0; m < n; m++) { size_t j = (b + n - m + n / 2) % n; double t = (double)j - (double)n / 2.; Cx v = w.GetValue(-t / s); sum += mul(x[m], Cx(v.real() / f, -v.imag() / f)); } r[b] = sum; } return r;
}
static void check(const FastWaveletTransform& t, IScale& sc, const Seq& x, IWavelet::shared_ptr w) {
  std::vector<double> s = sc.GetScales(); Seq x0 = x; std::vector<Seq> r = t.Transform(x, w); same(x, x0, "the transform modifies its signal"); sym_assert(r.size() == s.size(), "not one row per scale");
  for (size_t i = 0; i < s.size() && i < r.size(); i++) { closeS(r[i], row(x, *w, s[i]), "a row is not the correlation of the signal with the scaled wavelet", 1e-6); for (size_t k = 0; k < r[i].size(); k++) sym_observe("re", r[i][k].real()); }
}
ENTRY(c35_library) { size_t n = 1 + sym_choice("n", 7); IScale::shared_ptr s = some(sym_choice("scales", 4)); FastWaveletTransform t(s, n); check(t, *s, symSeq("x", n), wavelet(sym_choice("wavelet", 3))); sym_cover("done"); }
ENTRY(c35_big) { size_t n = 8 + sym_choice("n", 9); IScale::shared_ptr s = some(sym_choice("scales", 4)); FastWaveletTransform t(s, n); check(t, *s, symSeq("x", n), wavelet(sym_choice("wavelet", 3))); sym_cover("done"); }
ENTRY(c35_free) { size_t n = 1 << sym_choice("n", 3); std::vector<double> v(1, S[sym_choice("scale", 4)]); IScale::shared_ptr s = scales(v); FastWaveletTransform t(s, n); check(t, *s, symSeq("x", n), wavelet(3)); sym_cover("done"); }
ENTRY(c35_one) {
  size_t n = 1 + sym_choice("n", 5); IScale::shared_ptr s = some(0); FastWaveletTransform t(s, n); Seq x = symSeq("x", n); IWavelet::shared_ptr w = wavelet(sym_choice("wavelet", 3)); int k = sym_choice("scale", 8);
  if (k >= 6) { double b = k == 6 ? 0 : -1.5; sym_assert(THROWS(t.TransformOneScale(x, w, b)), "a scale that is not positive is accepted"); sym_cover("rejected"); return; }
  Seq y = t.TransformOneScale(x, w, S[k]), z = row(x, *w, S[k]); sym_assert(y.size() == n, "result has another length"); for (size_t b = 0; b < n && b < y.size(); b++) closeC(y[(b + n / 2) % n], z[b], "the convolution with the scaled wavelet is wrong", 1e-6); sym_cover("done");
}
ENTRY(c35_linear) {
  size_t n = 1 + sym_choice("n", 5); IScale::shared_ptr s = some(0); FastWaveletTransform t(s, n); Seq x = symSeq("x", n), y = symSeq("y", n), z; Cx a = sym_choice("factor", 2) ? Cx(0, 2) : Cx(-0.5, 0); IWavelet::shared_ptr w = wavelet(sym_choice("wavelet", 3));
  for (size_t i = 0; i < n; i++) z.push_back(mul(a, x[i]) + y[i]); std::vector<Seq> tx = t.Transform(x, w), ty = t.Transform(y, w), tz = t.Transform(z, w);
  for (size_t i = 0; i < tz.size(); i++) for (size_t k = 0; k < tz[i].size(); k++) closeC(tz[i][k], mul(a, tx[i][k]) + ty[i][k], "the transform is not linear", 1e-6); sym_cover("done");
}
ENTRY(c35_cache) {
  static const double L[] = {-1, 0, 1e-4, 1e-3, 10}; size_t n = 2 + sym_choice("n", 3); static const double Near[] = {1, 1 + 1e-9, 1.25, 1.5, 0.001, 0.002}; int sk = sym_choice("scales", 2); IScale::shared_ptr s = sk ? scales(std::vector<double>(Near, Near + 6)) : some(0); FastWaveletTransform t(s, n, L[sym_choice("limit", 5)]);
  IWavelet::shared_ptr w[2] = {wavelet(0), wavelet(1 + sym_choice("wavelet", 2))}; Seq x = symSeq("x", n), y = symSeq("y", n);
  for (int i = 0; i < 3; i++) { int c = sym_choice("call", 4); check(t, *s, c & 1 ? x : y, w[c >> 1]); } sym_cover("done");
}
ENTRY(c35_mismatch) { size_t n = 1 + sym_choice("n", 3), m = sym_choice("m", 5); if (n == m) return; IScale::shared_ptr s = some(0); FastWaveletTransform t(s, n); Seq x = symSeq("x", m); sym_assert(THROWS(t.Transform(x, wavelet(0))), "a signal of another length is transformed"); check(t, *s, symSeq("y", n), wavelet(2)); sym_cover("rejected"); }
ENTRY(c35_long) {
  static const int N[] = {8, 9, 16, 17, 32, 33}; size_t n = N[sym_choice("n", 6)]; IScale::shared_ptr s = some(0); FastWaveletTransform t(s, n); Seq x(n); int w = sym_choice("places", 2); for (int i = 0; i < 2; i++) { double re = sym_double("x", -1000, 1000), im = sym_double("x", -1000, 1000); x[w ? n - 1 - i : i * (n / 2)] = Cx(re, im); }
  check(t, *s, x, wavelet(sym_choice("wavelet", 3))); sym_cover("done");
}
ENTRY(c35_rows) {
  static const int R[] = {8, 11, 17, 40}; int m = R[sym_choice("rows", 4)]; std::vector<double> v; for (int i = 0; i < m; i++) v.push_back(0.25 + 0.125 * ((i * 7) % m)); IScale::shared_ptr s = scales(v); FastWaveletTransform t(s, 4); IWavelet::shared_ptr w = wavelet(sym_choice("wavelet", 3)); Seq x = symSeq("x", 4); check(t, *s, x, w); Seq y = symSeq("y", 4); check(t, *s, y, w); sym_cover("done");
}
