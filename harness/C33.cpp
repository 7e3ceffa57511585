/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "sequences of 0..7 complex numbers with parts in [-1000, 1000] as reals, tolerance 1e-7",
 "assumptions": ["FFTW computes the unnormalised forward transform of its plan", "arithmetic over the reals, compared within 1e-7"],
 "entries": [
  {"name": "c33_forward_inverse", "opts": "real", "covers": ["done"], "bounds": "lengths 0..7 (fast: 1..7)"},
  {"name": "c33_inverse_forward", "opts": "real", "covers": ["done"], "bounds": "lengths 0..7 (fast: 1..7)"},
  {"name": "c33_definition", "opts": "real", "covers": ["done"], "bounds": "lengths 0..7 (fast: 1..7)"},
  {"name": "c33_energy", "opts": "real", "covers": ["done"], "bounds": "lengths 1..6: inner products with every basis sequence"},
  {"name": "c33_mismatch", "opts": "", "covers": ["rejected"], "bounds": "fast transform of sizes 1..4, sequences of another size"},
  {"name": "c33_big", "opts": "real", "tier": "thorough", "covers": ["done"], "bounds": "lengths 8..16, both transforms, all of the above"},
  {"name": "c33_long", "opts": "real", "covers": ["done"], "bounds": "lengths 8, 9, 12, 16, 17, 32, 33, 64: two symbolic elements at 4 pairs of places, both transforms, both orders"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
using namespace k52::dsp;
struct T { IFourierTransform::shared_ptr f; boost::shared_ptr<InverseFourierTransform> i; T(size_t n) { if (n && sym_choice("fast", 2)) f.reset(new FastFourierTransform(n)); else f.reset(new FourierTransform()); i.reset(new InverseFourierTransform(f)); } };
static void fi(T& t, size_t n) { Seq x = symSeq("x", n), b = x; Seq y = t.f->Transform(x), r = t.i->Transform(y); closeS(r, b, "the inverse transform does not undo the forward one"); same(x, b, "the input is modified"); for (size_t k = 0; k < n; k++) sym_observe("re", r[k].real()); }
static void inf(T& t, size_t n) { Seq x = symSeq("x", n), b = x; Seq y = t.i->Transform(x); same(x, b, "the input is modified"); closeS(t.f->Transform(y), b, "the forward transform does not undo the inverse one"); }
static void def(T& t, size_t n) { Seq x = symSeq("x", n); Seq d = dft(x, 1); for (size_t k = 0; k < n; k++) d[k] = Cx(d[k].real() / (double)n, d[k].imag() / (double)n); closeS(t.i->Transform(x), d, "the inverse transform differs from its definition"); }
static void en(T& t, size_t n) {
  Seq x = symSeq("x", n), fx = t.f->Transform(x); sym_assert(fx.size() == n, "result has another length");
  for (size_t j = 0; j < n; j++) { Seq fe = t.f->Transform(delta(n, j)); Cx s; for (size_t k = 0; k < n; k++) s += mul(fx[k], std::conj(fe[k])); closeC(s, Cx(x[j].real() * n, x[j].imag() * n), "the transform does not keep inner products up to the factor N"); }
}
ENTRY(c33_forward_inverse) { size_t n = sym_choice("n", 8); T t(n); fi(t, n); sym_cover("done"); }
ENTRY(c33_inverse_forward) { size_t n = sym_choice("n", 8); T t(n); inf(t, n); sym_cover("done"); }
ENTRY(c33_definition) { size_t n = sym_choice("n", 8); T t(n); def(t, n); sym_cover("done"); }
ENTRY(c33_energy) { size_t n = 1 + sym_choice("n", 6); T t(n); en(t, n); sym_cover("done"); }
ENTRY(c33_mismatch) { size_t n = 1 + sym_choice("n", 4), m = sym_choice("m", 6); if (n == m) return; IFourierTransform::shared_ptr f(new FastFourierTransform(n)); InverseFourierTransform i(f); Seq x = symSeq("x", m); sym_assert(THROWS(i.Transform(x)), "a sequence of another size is transformed"); closeS(i.Transform(dft(generic(n))), generic(n), "wrong after a rejected call"); sym_cover("rejected"); }
ENTRY(c33_big) { size_t n = 8 + sym_choice("n", 9); T t(n); int k = sym_choice("what", 4); if (k == 0) fi(t, n); else if (k == 1) inf(t, n); else if (k == 2) def(t, n); else en(t, n); sym_cover("done"); }
ENTRY(c33_long) {
  static const int N[] = {8, 9, 12, 16, 17, 32, 33, 64}; size_t n = N[sym_choice("n", 8)]; T t(n); static const int P[4][2] = {{0, 1}, {1, -1}, {3, -2}, {0, 5}}; const int* p = P[sym_choice("places", 4)]; Seq x(n); for (int i = 0; i < 2; i++) { double re = sym_double("x", -1000, 1000), im = sym_double("x", -1000, 1000); x[p[i] < 0 ? n + p[i] : p[i]] = Cx(re, im); }
  Seq b = x; if (sym_choice("order", 2)) closeS(t.i->Transform(t.f->Transform(x)), b, "the inverse transform does not undo the forward one"); else closeS(t.f->Transform(t.i->Transform(x)), b, "the forward transform does not undo the inverse one"); same(x, b, "the input is modified"); sym_cover("done");
}
