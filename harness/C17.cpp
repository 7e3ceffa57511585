/*CHECK
{"sources": ["common"], "ubsan": true,
 "bounds": "every finite double (IEEE semantics), vectors of up to 3 elements",
 "entries": [
  {"name": "c17_basic", "opts": "overflow,ms=40000", "covers": ["equal", "different"], "bounds": "every pair of finite doubles"},
  {"name": "c17_tolerance", "opts": "overflow,ms=40000", "covers": ["close", "far"], "bounds": "every pair of doubles in [-1e6, 1e6]"},
  {"name": "c17_between", "opts": "overflow,ms=60000", "covers": ["ordered"], "bounds": "every ordered triple of doubles in [-1e300, 1e300]"},
  {"name": "c17_zero", "opts": "overflow,ms=40000", "covers": ["zero", "not zero"], "bounds": "every double, NaN and infinities included"},
  {"name": "c17_vectors", "opts": "overflow,ms=40000", "covers": ["equal", "different", "lengths"], "bounds": "vectors of 0..3 elements"},
  {"name": "c17_conjugate", "opts": "overflow", "covers": ["done"], "bounds": "sequences of 0..3 complex numbers"},
  {"name": "c17_long", "opts": "overflow,ms=40000", "covers": ["equal", "different"], "bounds": "vectors of 4..300 elements (12 lengths), any one element arbitrary"}
 ]}
*/
#include "util.h"
#include "sym.h"
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
using k52::common::FloatingPoint; using k52::common::Constants;
static int EQ(double a, double b) { return FloatingPoint::AreEqual(a, b); }
ENTRY(c17_basic) {
  double x = sym_double("x", -DBL_MAX, DBL_MAX), y = sym_double("y", -DBL_MAX, DBL_MAX); sym_assert(FloatingPoint::AreEqual(x, x), "a finite value is not equal to itself");
  bool a = FloatingPoint::AreEqual(x, y), b = FloatingPoint::AreEqual(y, x); sym_assert(a == b, "comparison is not symmetric"); if (a) sym_cover("equal"); else sym_cover("different");
}
ENTRY(c17_tolerance) {
  double x = sym_double("x", -1e6, 1e6), y = sym_double("y", -1e6, 1e6), e = Constants::Eps; sym_assert(e > 0 && e <= 1e-6, "the tolerance is no small positive number"); double d = x - y; if (d < 0) d = -d;
  bool a = FloatingPoint::AreEqual(x, y); sym_assert(sym_or(!(d < e), a), "values closer than the tolerance are different"); sym_assert(sym_or(!(d > e), !a), "values further apart than the tolerance are equal"); if (a) sym_cover("close"); else sym_cover("far");
}
ENTRY(c17_between) {
  double x = sym_double("x", -1e300, 1e300), y = sym_double("y", -1e300, 1e300), z = sym_double("z", -1e300, 1e300); sym_assume(x <= y); sym_assume(y <= z); sym_assume(FloatingPoint::AreEqual(x, z));
  sym_assert(sym_and(FloatingPoint::AreEqual(x, y), FloatingPoint::AreEqual(y, z)), "a value between two equal ones differs from them"); sym_cover("ordered");
}
ENTRY(c17_zero) { double x = sym_double_any("x"); bool z = FloatingPoint::IsZero(x); sym_assert(z == FloatingPoint::AreEqual(x, 0) && z == FloatingPoint::AreEqual(0, x), "zero test disagrees with comparison to zero"); sym_assert(sym_or(!z, sym_and(x < 2 * Constants::Eps, x > -2 * Constants::Eps)), "a value far from zero is zero"); if (z) sym_cover("zero"); else sym_cover("not zero"); }
ENTRY(c17_vectors) {
  int n = sym_choice("n", 4), m = sym_choice("m", 4); std::vector<double> a(n), b(m); for (int i = 0; i < n; i++) a[i] = sym_double("a", -1e3, 1e3); for (int i = 0; i < m; i++) b[i] = sym_double("b", -1e3, 1e3);
  bool r = FloatingPoint::AreEqual(a, b); if (n != m) { sym_assert(!r, "vectors of different length are equal"); sym_cover("lengths"); return; }
  bool w = true; for (int i = 0; i < n; i++) if (!EQ(a[i], b[i])) w = false; sym_assert(r == w, "vector comparison disagrees with its elements"); sym_assert(FloatingPoint::AreEqual(b, a) == r, "vector comparison is not symmetric"); if (r) sym_cover("equal"); else sym_cover("different");
}
ENTRY(c17_conjugate) {
  int n = sym_choice("n", 4); std::vector<std::complex<double> > a; for (int i = 0; i < n; i++) { double re = sym_double_any("re"), im = sym_double_any("im"); a.push_back(std::complex<double>(re, im)); } std::vector<std::complex<double> > c = k52::common::Helpers::Conjugate(a); sym_assert((int)c.size() == n, "conjugation changes the length");
  for (int i = 0; i < n; i++) { sym_assert(sym_or(c[i].real() == a[i].real(), sym_and(c[i].real() != c[i].real(), a[i].real() != a[i].real())), "conjugation changes a real part"); sym_assert(sym_or(c[i].imag() == -a[i].imag(), sym_and(c[i].imag() != c[i].imag(), a[i].imag() != a[i].imag())), "conjugation does not negate an imaginary part"); } sym_cover("done");
}
ENTRY(c17_long) { // one element, anywhere, decides
  static const int N[] = {4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 100, 300}; int n = N[sym_choice("n", 12)], k = n > 255 ? n - 1 - sym_choice("at", 50) : sym_choice("at", n); std::vector<double> a(n), b(n); for (int i = 0; i < n; i++) a[i] = b[i] = i * 0.5 - 3; a[k] = sym_double("a", -1e3, 1e3); b[k] = sym_double("b", -1e3, 1e3); bool w = EQ(a[k], b[k]);
  sym_assert(FloatingPoint::AreEqual(a, b) == w && FloatingPoint::AreEqual(b, a) == w, "vector comparison disagrees with its elements"); if (w) sym_cover("equal"); else sym_cover("different");
  std::vector<double> c(b.begin(), b.begin() + k), d(n - k); sym_assert(FloatingPoint::AreEqual(a, c) == false, "vectors of different length are equal"); (void)d;
}
