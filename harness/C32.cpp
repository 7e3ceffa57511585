/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "sequences of 0..8 (direct) and 1..8 (fast) complex numbers with parts in [-1000, 1000] as reals, tolerance 1e-7; FFTW is modelled by its definition",
 "assumptions": ["FFTW itself computes the unnormalised forward transform of its plan (engine model by definition; native replay runs the real library)", "rounding is not modelled symbolically: arithmetic over the reals, compared within 1e-7"],
 "entries": [
  {"name": "c32_direct", "opts": "real", "covers": ["done"], "bounds": "lengths 0..8"},
  {"name": "c32_fast", "opts": "real", "covers": ["done"], "bounds": "lengths 1..8"},
  {"name": "c32_linear", "opts": "real", "covers": ["done"], "bounds": "lengths 1..5, both transforms, 4 complex factors"},
  {"name": "c32_reuse", "opts": "real", "covers": ["done"], "bounds": "one transform object, 3 sequences, two objects of different size alive"},
  {"name": "c32_reject", "opts": "real", "covers": ["size", "empty", "works"], "bounds": "construction sizes 0..4, sequence sizes 0..5"},
  {"name": "c32_big", "opts": "real", "covers": ["done"], "bounds": "lengths 9..24, both transforms"},
  {"name": "c32_long", "opts": "real", "covers": ["done"], "bounds": "lengths 25, 31, 32, 33, 48, 63, 64, 65, 100, 128, 257, 300: two symbolic elements at 7 pairs of places, both transforms"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
using namespace k52::dsp;
static void check(const IFourierTransform& t, size_t n) {
  Seq x = symSeq("x", n), before = x; Seq r = t.Transform(x); same(x, before, "the transform modifies its input");
  closeS(r, dft(before), "the transform differs from its definition"); for (size_t i = 0; i < n; i++) { sym_observe("re", r[i].real()); sym_observe("im", r[i].imag()); }
}
ENTRY(c32_direct) { FourierTransform f; check(f, sym_choice("n", 9)); sym_cover("done"); }
ENTRY(c32_fast) { size_t n = 1 + sym_choice("n", 8); FastFourierTransform f(n); check(f, n); sym_cover("done"); }
ENTRY(c32_big) { size_t n = 9 + sym_choice("n", 16); if (sym_choice("fast", 2)) { FastFourierTransform f(n); check(f, n); } else { FourierTransform f; check(f, n); } sym_cover("done"); }
ENTRY(c32_linear) {
  size_t n = 1 + sym_choice("n", 5); boost::shared_ptr<IFourierTransform> t; if (sym_choice("fast", 2)) t.reset(new FastFourierTransform(n)); else t.reset(new FourierTransform());
  static const double C[4][2] = {{2, 0}, {0, 1}, {-0.5, 3}, {0, 0}}; const double* c = C[sym_choice("factor", 4)]; Cx a(c[0], c[1]);
  Seq x = symSeq("x", n), y = symSeq("y", n), z; for (size_t i = 0; i < n; i++) z.push_back(mul(a, x[i]) + y[i]);
  Seq fx = t->Transform(x), fy = t->Transform(y), fz = t->Transform(z), w; for (size_t i = 0; i < n && i < fx.size() && i < fy.size(); i++) w.push_back(mul(a, fx[i]) + fy[i]); closeS(fz, w, "the transform is not linear"); sym_cover("done");
}
ENTRY(c32_reuse) {
  size_t n = 2 + sym_choice("n", 3), m = 1 + sym_choice("m", 4); FastFourierTransform a(n); { FastFourierTransform b(m); check(a, n); check(b, m); check(a, n); } check(a, n); FourierTransform d; check(d, n); check(d, m); sym_cover("done");
}
ENTRY(c32_reject) {
  size_t n = sym_choice("n", 5), m = sym_choice("m", 6); if (!n) { sym_assert(THROWS(FastFourierTransform t(n)), "a transform of size 0 is created"); sym_cover("empty"); FastFourierTransform again(2); check(again, 2); return; }
  FastFourierTransform f(n); Seq x = symSeq("x", m); if (n == m) { sym_assert(!THROWS(f.Transform(x)), "a sequence of the right size is rejected"); sym_cover("works"); return; }
  sym_assert(THROWS(f.Transform(x)), "a sequence of another size is transformed"); Seq one = delta(n, 0), r = f.Transform(one); closeS(r, dft(one), "the transform is wrong after a rejected call"); sym_cover("size");
}
static Seq sparse(size_t n) { static const int P[7][2] = {{0, 1}, {1, 2}, {1, -1}, {-1, -2}, {0, -3}, {-4, 5}, {3, -5}}; const int* p = P[sym_choice("places", 7)]; Seq s(n); for (int i = 0; i < 2; i++) { size_t k = p[i] == -3 ? n / 2 : p[i] == -4 ? n / 3 : p[i] == -5 ? n / 2 + 1 : p[i] < 0 ? n + p[i] : p[i]; double re = sym_double("x", -1000, 1000), im = sym_double("x", -1000, 1000); s[k] = Cx(re, im); } return s; }
ENTRY(c32_long) { static const int N[] = {25, 31, 32, 33, 48, 63, 64, 65, 100, 128, 257, 300}; size_t n = N[sym_choice("n", 12)]; Seq x = sparse(n), b = x, r; if (sym_choice("fast", 2)) { FastFourierTransform f(n); r = f.Transform(x); } else { FourierTransform f; r = f.Transform(x); } same(x, b, "the transform modifies its input"); closeS(r, dft(b), "the transform differs from its definition"); sym_cover("done"); }
