// FFTW by the definition of the discrete Fourier transform. Native replay uses the real library, except where a
// harness asks for the model ("fftw": "model") to see the planner's unsynchronised state.
#include <cmath>
#include <cstddef>
#include <cstdlib>
typedef double fftw_complex[2];
struct fftw_plan_s { int n, sign; fftw_complex *in, *out; };
extern "C" {
int sym_fftw_planner; // FFTW's planner is not thread-safe: planning and destroying touch shared state
#ifndef SYM_ENGINE
void* fftw_malloc(size_t n) { return malloc(n); }
void fftw_free(void* p) { free(p); }
#endif
fftw_plan_s* fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned) {
  sym_fftw_planner++;
  for (int i = 0; i < n; i++) in[i][0] = in[i][1] = out[i][0] = out[i][1] = 123.456; // planning overwrites the arrays
  return new fftw_plan_s{n, sign, in, out};
}
static void twiddle(int k, int n, double& c, double& s) { // exact at multiples of a quarter turn
  k %= n; if (4 * k % n == 0) { static const double C[4] = {1, 0, -1, 0}, S[4] = {0, 1, 0, -1}; int q = 4 * k / n; c = C[q]; s = S[q]; return; }
  double a = 2 * M_PI * k / n; c = std::cos(a); s = std::sin(a);
}
void fftw_execute(const fftw_plan_s* p) {
  double* t = new double[2 * p->n];
  for (int k = 0; k < p->n; k++) {
    double re = 0, im = 0;
    for (int j = 0; j < p->n; j++) { double c, s; twiddle((int)((long)j * k % p->n), p->n, c, s); s *= p->sign; re += p->in[j][0] * c - p->in[j][1] * s; im += p->in[j][0] * s + p->in[j][1] * c; }
    t[2 * k] = re; t[2 * k + 1] = im;
  }
  for (int k = 0; k < p->n; k++) { p->out[k][0] = t[2 * k]; p->out[k][1] = t[2 * k + 1]; }
  delete[] t;
}
void fftw_destroy_plan(fftw_plan_s* p) { sym_fftw_planner--; delete p; }
}
