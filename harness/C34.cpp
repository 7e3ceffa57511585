/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "sequences of 0..8 complex numbers with parts in [-1000, 1000] as reals, tolerance 1e-6; Fourier-based: the second sequence ranges over every basis sequence and two dense ones (the convolution is bilinear), and over every sequence for lengths 1, 2, 4",
 "assumptions": ["FFTW computes the unnormalised forward transform of its plan", "arithmetic over the reals, compared within 1e-6"],
 "entries": [
  {"name": "c34_direct", "opts": "real", "covers": ["done"], "bounds": "both sequences symbolic, lengths 0..6"},
  {"name": "c34_fourier", "opts": "real", "covers": ["done"], "bounds": "lengths 1..7, direct and fast transform, either argument symbolic, the other every basis sequence (times 1 and i) or dense"},
  {"name": "c34_fourier_both", "opts": "real", "covers": ["done"], "bounds": "both sequences symbolic, fast transform, lengths 1, 2, 4"},
  {"name": "c34_commutes", "opts": "real", "covers": ["done"], "bounds": "direct: lengths 0..5 both symbolic; Fourier-based: lengths 1..5 one symbolic"},
  {"name": "c34_reject", "opts": "", "covers": ["rejected", "accepted"], "bounds": "lengths 0..4 each"},
  {"name": "c34_big", "opts": "real", "tier": "thorough", "covers": ["done"], "bounds": "lengths 8..14, all three implementations"},
  {"name": "c34_long", "opts": "real", "covers": ["done"], "bounds": "lengths 8, 9, 12, 15, 16, 17, 31, 32, 33: one sequence with two symbolic elements against a dense fixed one, each method and side"},
  {"name": "c34_direct_long", "opts": "real", "covers": ["done"], "bounds": "the direct method, lengths 7..12, 16, 20, 40: one sequence symbolic"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
using namespace k52::dsp;
static ICircularConvolution::shared_ptr make(int kind, size_t n) {
  if (kind == 0) return ICircularConvolution::shared_ptr(new CircularConvolution());
  IFourierTransform::shared_ptr f; if (kind == 1) f.reset(new FourierTransform()); else f.reset(new FastFourierTransform(n));
  return ICircularConvolution::shared_ptr(new FourierBasedCircularConvolution(f));
}
static void check(ICircularConvolution& c, const Seq& a, const Seq& b) { Seq a0 = a, b0 = b; Seq r = c.EvaluateConvolution(a, b); same(a, a0, "the convolution modifies its first argument"); same(b, b0, "the convolution modifies its second argument"); closeS(r, convolve(a, b), "the convolution differs from its definition", 1e-6); for (size_t i = 0; i < r.size(); i++) sym_observe("re", r[i].real()); }
static Seq other(size_t n) { int k = sym_choice("other", 2 * n + 2); if (k < (int)n) return delta(n, k); if (k < (int)(2 * n)) { Seq s = delta(n, k - n); s[k - n] = Cx(0, 1); return s; } return generic(n, k - 2 * n); }
ENTRY(c34_direct) { size_t n = sym_choice("n", 7); ICircularConvolution::shared_ptr c = make(0, n); check(*c, symSeq("x", n), symSeq("y", n)); sym_cover("done"); }
ENTRY(c34_fourier) { size_t n = 1 + sym_choice("n", 7); int k = 1 + sym_choice("fast", 2); ICircularConvolution::shared_ptr c = make(k, n); Seq o = other(n), x = symSeq("x", n); if (sym_choice("side", 2)) check(*c, x, o); else check(*c, o, x); sym_cover("done"); }
ENTRY(c34_fourier_both) { size_t n = 1 << sym_choice("n", 3); ICircularConvolution::shared_ptr c = make(2, n); check(*c, symSeq("x", n), symSeq("y", n)); sym_cover("done"); }
ENTRY(c34_commutes) {
  int k = sym_choice("kind", 3); size_t n = (k ? 1 : 0) + sym_choice("n", k ? 5 : 6); ICircularConvolution::shared_ptr c = make(k, n); Seq x = symSeq("x", n), y = k ? other(n) : symSeq("y", n);
  closeS(c->EvaluateConvolution(x, y), c->EvaluateConvolution(y, x), "the convolution is not commutative", 1e-6); sym_cover("done");
}
ENTRY(c34_reject) {
  int k = sym_choice("kind", 3); size_t n = sym_choice("n", 5), m = sym_choice("m", 5); if (k == 2 && !n) return; ICircularConvolution::shared_ptr c = make(k, n); Seq x(n), y(m); bool t = THROWS(c->EvaluateConvolution(x, y));
  sym_assert(t == (n != m), n == m ? "sequences of equal length are rejected" : "sequences of different lengths are accepted"); sym_cover(n == m ? "accepted" : "rejected");
}
ENTRY(c34_big) { size_t n = 8 + sym_choice("n", 7); int k = sym_choice("kind", 3); ICircularConvolution::shared_ptr c = make(k, n); Seq o = other(n), x = symSeq("x", n); if (sym_choice("side", 2)) check(*c, x, o); else check(*c, o, x); sym_cover("done"); }
ENTRY(c34_long) {
  static const int N[] = {8, 9, 12, 15, 16, 17, 31, 32, 33}; size_t n = N[sym_choice("n", 9)]; ICircularConvolution::shared_ptr c = make(sym_choice("kind", 3), n); Seq x(n), o = generic(n, 1); int w = sym_choice("places", 3); for (int i = 0; i < 2; i++) { double re = sym_double("x", -1000, 1000), im = sym_double("x", -1000, 1000); x[w == 0 ? i : w == 1 ? n - 1 - i : n / 2 + 3 * i] = Cx(re, im); }
  if (sym_choice("side", 2)) check(*c, x, o); else check(*c, o, x); sym_cover("done");
}
ENTRY(c34_direct_long) { static const int N[] = {7, 8, 9, 10, 11, 12, 16, 20, 40}; size_t n = N[sym_choice("n", 9)]; ICircularConvolution::shared_ptr c = make(0, n); Seq x = symSeq("x", n), o = generic(n, 1); if (sym_choice("side", 2)) check(*c, x, o); else check(*c, o, x); sym_cover("done"); }
