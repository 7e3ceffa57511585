/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "Haar: every double but NaN (IEEE semantics); Mexican hat and Morlet: every real in [-1e6, 1e6]; exp, sin and cos are uninterpreted functions with their ranges and symmetries",
 "assumptions": ["Mexican hat and Morlet: arithmetic over the reals", "exp, cos and sin: only their ranges, cos(-x) = cos x, sin(-x) = -sin x, and equal results for equal arguments are used"],
 "entries": [
  {"name": "c38_haar", "opts": "overflow", "covers": ["left", "right", "outside"], "bounds": "every double but NaN"},
  {"name": "c38_mhat", "opts": "real", "covers": ["inside", "outside", "zero"], "bounds": "every real in [-1e6, 1e6]"},
  {"name": "c38_morlet", "opts": "real", "covers": ["done"], "bounds": "every real in [-1e6, 1e6]"},
  {"name": "c38_points", "opts": "", "covers": ["done"], "bounds": "Mexican hat and Morlet at 40 concrete arguments against independently computed values"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
using namespace k52::dsp;
static int step(double t, double c) { int l = sym_and(t >= c - 0.5, t < c), r = sym_and(t > c, t <= c + 0.5); return (r ? 1 : 0) - (l ? 1 : 0); }
ENTRY(c38_haar) {
  double t = sym_double_any("t"); sym_assume(t == t); HaarWaveletFunction h; Cx v = h.GetValue(t); sym_assert(v.real() == step(t, 0), "the real part is not the Haar step"); sym_assert(v.imag() == step(t, 0.25), "the imaginary part is not the Haar step shifted by a quarter");
  double w = h.GetValue(-t).real(); sym_assert(v.real() == -w, "the Haar wavelet is not odd"); if (v.real() == -1) sym_cover("left"); else if (v.real() == 1) sym_cover("right"); else sym_cover("outside");
}
ENTRY(c38_mhat) {
  double t = sym_double("t", -1e6, 1e6); MhatWaveletFunction m; Cx a = m.GetValue(t), b = m.GetValue(-t); sym_assert_close(a.real(), b.real(), 1e-9, "the Mexican hat is not even"); sym_assert(sym_and(a.imag() == 0, b.imag() == 0), "the Mexican hat is not real");
  if (t > -3 && t < 3) { sym_assert(a.real() >= 0, "the hat is negative inside its zeros"); sym_cover("inside"); } else if (t == 3 || t == -3) { sym_assert_close(a.real(), 0, 1e-9, "the hat is not zero at its zeros"); sym_cover("zero"); } else { sym_assert(a.real() <= 0, "the hat is positive outside its zeros"); sym_cover("outside"); }
}
ENTRY(c38_morlet) { double t = sym_double("t", -1e6, 1e6); MorletWaveletFunction m; Cx a = m.GetValue(t), b = m.GetValue(-t); sym_assert_close(a.real(), b.real(), 1e-9, "the real part is not even"); sym_assert_close(a.imag(), -b.imag(), 1e-9, "the imaginary part is not odd"); sym_cover("done"); }
ENTRY(c38_points) {
  int k = sym_choice("k", 40); double t = (k - 20) * 0.375; MorletWaveletFunction m; Cx a = m.GetValue(t); closeC(a, Cx(std::exp(-t * t / 2) * std::cos(5 * t), std::exp(-t * t / 2) * std::sin(5 * t)), "the Morlet wavelet differs from exp(5it - t^2/2)", 1e-12);
  MhatWaveletFunction h; double q = t * t / 9; double c = h.GetValue(0).real(); sym_assert(c > 0, "the hat is not positive at 0"); sym_assert_close(h.GetValue(t).real(), c * (1 - q) * std::exp(-q / 2), 1e-12, "the Mexican hat differs from (1 - t^2/9) exp(-t^2/18) up to its height"); sym_cover("done");
}
