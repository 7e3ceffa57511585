/*CHECK
{"sources": ["common", "dsp"], "sanitize": "thread", "fftw": "model",
 "bounds": "2 threads that each create, use and destroy transforms of sizes 1..3 (a failing construction among them), one transform alive before; every schedule at the synchronisation operations; happens-before races on every access",
 "assumptions": ["Boost.Thread is replaced by shadow/boost/thread.hpp", "FFTW's planner and plan destruction are modelled as unsynchronised accesses to shared state, execution of different plans as independent, as its documentation says"],
 "entries": [
  {"name": "c41_two", "opts": "race", "covers": ["done"], "bounds": "2 threads, one transform each"},
  {"name": "c41_order", "opts": "race", "covers": ["done"], "bounds": "2 threads, destruction in one against creation in the other"},
  {"name": "c41_fail", "opts": "race", "covers": ["done"], "bounds": "2 threads, failing constructions"},
  {"name": "c41_wavelet", "opts": "race", "covers": ["done"], "bounds": "2 threads, each with a convolution based on its own transform"},
  {"name": "c41_three", "opts": "race", "tier": "thorough", "covers": ["done"], "bounds": "3 threads, one transform each"}
 ]}
*/
#include "dsp_util.h"
#include <boost/thread.hpp>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
using namespace k52::dsp;
static void expect(const Seq& a, const Seq& b, const char* m) { sym_assert(a.size() == b.size(), m); for (size_t i = 0; i < a.size() && i < b.size(); i++) { Cx d = a[i] - b[i]; sym_assert(d.real() < 1e-6 && d.real() > -1e-6 && d.imag() < 1e-6 && d.imag() > -1e-6, m); } }
static void use(const FastFourierTransform& f, int n, int v) { Seq x = generic(n, v); expect(f.Transform(x), dft(x), "a transform in one thread is disturbed by another thread"); }
struct User { int n, v; void operator()() { FastFourierTransform f(n); use(f, n, v); } };
struct Killer { FastFourierTransform* f; void operator()() { delete f; } };
struct Failing { void operator()() { sym_assert(THROWS(FastFourierTransform f(0)), "a transform of size 0 is created"); FastFourierTransform g(2); use(g, 2, 1); } };
struct Conv { int n; void operator()() { IFourierTransform::shared_ptr f(new FastFourierTransform(n)); FourierBasedCircularConvolution c(f); Seq a = generic(n), b = generic(n, 1); expect(c.EvaluateConvolution(a, b), convolve(a, b), "a convolution in one thread is disturbed by another thread"); } };
static void both(boost::thread& a, boost::thread& b) { a.join(); b.join(); FastFourierTransform last(2); use(last, 2, 0); sym_cover("done"); }
ENTRY(c41_two) { User p = {1 + sym_choice("n", 3), 0}, q = {2, 1}; boost::thread a(p), b(q); both(a, b); }
ENTRY(c41_three) { User p = {3, 0}, q = {2, 1}, r = {2, 2}; boost::thread a(p), b(q), c(r); c.join(); both(a, b); }
ENTRY(c41_order) { FastFourierTransform* old = new FastFourierTransform(2); use(*old, 2, 0); Killer k = {old}; User q = {1 + sym_choice("n", 2), 1}; boost::thread a(k), b(q); both(a, b); }
ENTRY(c41_fail) { Failing p; User q = {2, 1}; boost::thread a(p), b(q); both(a, b); }
ENTRY(c41_wavelet) { Conv p = {2}, q = {1}; boost::thread a(p), b(q); both(a, b); }
