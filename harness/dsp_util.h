#pragma once
#include "util.h"
#include "sym.h"
#include <complex>
#include <boost/shared_ptr.hpp>
typedef std::complex<double> Cx;
typedef std::vector<Cx> Seq;
// exp(sign * 2 pi i k / n), exact at multiples of a quarter turn
static inline Cx turn(long k, long n, int sign = -1) {
  k %= n; if (k < 0) k += n;
  if (4 * k % n == 0) { static const double C[4] = {1, 0, -1, 0}, S[4] = {0, 1, 0, -1}; int q = 4 * k / n; return Cx(C[q], sign * S[q]); }
  double a = 2 * 3.14159265358979323846 * k / n; return Cx(std::cos(a), sign * std::sin(a));
}
static inline Cx mul(Cx a, Cx b) { return Cx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static inline Cx sel(int c, Cx a, Cx b) { return Cx(sym_select(c, a.real(), b.real()), sym_select(c, a.imag(), b.imag())); }
static inline Seq symSeq(const char* name, size_t n, double b = 1000) { Seq s; for (size_t i = 0; i < n; i++) { double re = sym_double(name, -b, b), im = sym_double(name, -b, b); s.push_back(Cx(re, im)); } return s; }
static inline Seq delta(size_t n, size_t j) { Seq s(n); s[j] = 1; return s; }
static inline Seq generic(size_t n, int v = 0) { Seq s; for (size_t i = 0; i < n; i++) s.push_back(Cx(0.75 + (double)((i * 7 + v * 5) % 11) - 4, ((i * 3 + v) % 5) * 1.25 - 2)); return s; }
static inline void closeC(Cx a, Cx b, const char* msg, double tol = 1e-7) { sym_assert_close(a.real(), b.real(), tol, msg); sym_assert_close(a.imag(), b.imag(), tol, msg); }
static inline void closeS(const Seq& a, const Seq& b, const char* msg, double tol = 1e-7) { sym_assert(a.size() == b.size(), "result has another length"); for (size_t i = 0; i < a.size() && i < b.size(); i++) closeC(a[i], b[i], msg, tol); }
static inline void same(const Seq& a, const Seq& b, const char* msg) { sym_assert(a.size() == b.size(), msg); int r = 1; for (size_t i = 0; i < a.size() && i < b.size(); i++) r = sym_and(r, sym_and(a[i].real() == b[i].real(), a[i].imag() == b[i].imag())); sym_assert(r, msg); }
static inline Seq dft(const Seq& x, int sign = -1) { size_t n = x.size(); Seq r(n); for (size_t k = 0; k < n; k++) { Cx s; for (size_t j = 0; j < n; j++) s += mul(x[j], turn((long)j * k, n, sign)); r[k] = s; } return r; }
static inline Seq convolve(const Seq& a, const Seq& b) { size_t n = a.size(); Seq r(n); for (size_t i = 0; i < n; i++) { Cx s; for (size_t j = 0; j < n; j++) s += mul(a[j], b[(i + n - j) % n]); r[i] = s; } return r; }
