/*CHECK
{"sources": ["common", "dsp"], "ubsan": true,
 "bounds": "5..7 nodes with values in [-100, 100]; 4 concrete grids of abscissas (uniform, uneven, far from zero, fine) and symbolic abscissas with gaps in [0.1, 10]; arithmetic over the reals, compared within 1e-6; arguments for the range check: every double",
 "assumptions": ["arithmetic over the reals, compared within 1e-6", "abscissas strictly increasing"],
 "entries": [
  {"name": "c39_nodes", "opts": "real,ms=30000", "covers": ["done"], "bounds": "4 grids, 5..7 nodes, every value vector"},
  {"name": "c39_smooth", "opts": "real,ms=30000", "covers": ["done"], "bounds": "4 grids, 5..6 nodes, every value vector: value and first derivative agree at every inner node"},
  {"name": "c39_local", "opts": "real,ms=30000", "covers": ["done"], "bounds": "4 grids, 7 nodes: three equal slopes around a node give this slope"},
  {"name": "c39_line", "opts": "real,ms=30000", "covers": ["done"], "bounds": "4 grids, 5..7 nodes, every line, every argument in the range"},
  {"name": "c39_slope", "opts": "real,ms=30000", "covers": ["weighted", "mean"], "bounds": "4 grids, 5..6 nodes: the derivative at every node is Akima's weighted mean of the neighbouring slopes"},
  {"name": "c39_symbolic", "opts": "real,ms=30000", "covers": ["done"], "bounds": "5 nodes with symbolic abscissas and values"},
  {"name": "c39_range", "opts": "overflow", "covers": ["inside", "outside"], "bounds": "4 grids, 5..7 nodes, every double as the argument"},
  {"name": "c39_reject", "opts": "overflow", "covers": ["few", "inconsistent", "uninitialised", "ok"], "bounds": "0..7 abscissas and values"},
  {"name": "c39_again", "opts": "real,ms=30000", "covers": ["done"], "bounds": "a second initialisation with fewer or as many nodes"},
  {"name": "c39_many", "opts": "real", "covers": ["done"], "bounds": "12, 17, 20, 33, 65, 100, 300 nodes, 2 grids: values at nodes with five symbolic neighbours, and lines everywhere"}
 ]}
*/
#include "dsp_util.h"
#include <k52/dsp/akima_spline.h>
using namespace k52::dsp;
static std::vector<double> grid(int g, int n) { std::vector<double> x; static const double U[] = {-2, -1.5, 0, 0.25, 3, 3.5, 7}; for (int i = 0; i < n; i++) x.push_back(g == 0 ? i : g == 1 ? U[i] : g == 2 ? 1000 + 2.5 * i + (i % 2) : -0.5 + 0.015625 * i * (i + 1)); return x; }
static std::vector<double> vals(int n) { std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(sym_double("y", -100, 100)); return y; }
static AkimaSpline::shared_ptr make(const std::vector<double>& x, const std::vector<double>& y) { AkimaSpline::shared_ptr s = AkimaSpline::Create(); s->Initialize(x, y); return s; }
static void nodes(Spline& s, const std::vector<double>& x, const std::vector<double>& y) { for (size_t i = 0; i < x.size(); i++) { double v = s.Value(x[i]); sym_assert_close(v, y[i], 1e-6, "the spline does not take a node's value"); sym_observe("v", v); } }
ENTRY(c39_nodes) { int g = sym_choice("grid", 4), n = 5 + sym_choice("n", 3); std::vector<double> x = grid(g, n), y = vals(n), x0 = x, y0 = y; AkimaSpline::shared_ptr s = make(x, y); nodes(*s, x0, y0); sym_cover("done"); }
// value (d = 0) or slope (d = 1) of the piece's cubic at its end `at`, from four points of it with dyadic weights
static double limit(Spline& s, double at, double far, int d) {
  double h = (far - at) / 8, f[4]; for (int i = 0; i < 4; i++) f[i] = s.Value(at + h * (i + 1));
  return d ? (-26 * f[0] + 57 * f[1] - 42 * f[2] + 11 * f[3]) / (6 * h) : 4 * f[0] - 6 * f[1] + 4 * f[2] - f[3];
}
ENTRY(c39_smooth) {
  int g = sym_choice("grid", 4), n = 5 + sym_choice("n", 2); std::vector<double> x = grid(g, n), y = vals(n); AkimaSpline::shared_ptr s = make(x, y); int i = 1 + sym_choice("node", n - 2); int k = sym_choice("what", 4); double h = (x[i] - x[i - 1]) / 8, f[5];
  if (k == 0) sym_assert_close(limit(*s, x[i], x[i - 1], 0), y[i], 1e-5, "the spline is not continuous at a node"); else if (k == 1) sym_assert_close(limit(*s, x[i], x[i + 1], 0), y[i], 1e-5, "the spline is not continuous at a node"); else if (k == 2) sym_assert_close(limit(*s, x[i], x[i - 1], 1), limit(*s, x[i], x[i + 1], 1), 1e-3, "the spline has a corner at a node");
  else { for (int j = 0; j < 5; j++) f[j] = s->Value(x[i] - h * (j + 1)); sym_assert_close(f[0] - 4 * f[1] + 6 * f[2] - 4 * f[3] + f[4], 0, 1e-4, "a piece is no cubic"); } sym_cover("done");
}
ENTRY(c39_local) {
  int g = sym_choice("grid", 4); std::vector<double> x = grid(g, 7), y; double a = sym_double("a", -10, 10), b = sym_double("b", -10, 10); int at = 1 + sym_choice("node", 5); for (int i = 0; i < 7; i++) y.push_back(i >= at - 1 && i <= at + 1 ? a * (x[i] - x[at]) + b : sym_double("y", -100, 100));
  // Akima: with equal slopes on both sides of a node, that slope is the derivative there
  AkimaSpline::shared_ptr s = make(x, y); sym_assert_close(limit(*s, x[at], x[at + 1], 1), a, 1e-3, "a straight neighbourhood of a node does not give its slope"); sym_cover("done");
}
ENTRY(c39_line) {
  int g = sym_choice("grid", 4), n = 5 + sym_choice("n", 3); std::vector<double> x = grid(g, n), y; double a = sym_double("a", -10, 10), b = sym_double("b", -10, 10); for (int i = 0; i < n; i++) y.push_back(a * (x[i] - x[0]) + b); AkimaSpline::shared_ptr s = make(x, y);
  double t = sym_double("t", x[0], x[n - 1]); double v = s->Value(t); sym_assert_close(v, a * (t - x[0]) + b, 1e-6, "the spline does not reproduce a straight line"); sym_cover("done");
}
ENTRY(c39_slope) { // the slopes are continued beyond both ends along a parabola
  int g = sym_choice("grid", 4), n = 5 + sym_choice("n", 2); std::vector<double> x = grid(g, n), y = vals(n), m(n + 3); AkimaSpline::shared_ptr s = make(x, y); for (int k = 0; k + 1 < n; k++) m[k + 2] = (y[k + 1] - y[k]) / (x[k + 1] - x[k]);
  m[1] = 2 * m[2] - m[3]; m[0] = 3 * m[2] - 2 * m[3]; m[n + 1] = 2 * m[n] - m[n - 1]; m[n + 2] = 3 * m[n] - 2 * m[n - 1];
  int i = sym_choice("node", n); double w = std::fabs(m[i + 3] - m[i + 2]), v = std::fabs(m[i + 1] - m[i]), t = i + 1 < n ? limit(*s, x[i], x[i + 1], 1) : limit(*s, x[i], x[i - 1], 1); if (w + v == 0) { sym_assert_close(t, (m[i + 1] + m[i + 2]) / 2, 1e-3, "with equal outer slopes the derivative is not the mean of the inner ones"); sym_cover("mean"); } else { sym_assert_close(t, (w * m[i + 1] + v * m[i + 2]) / (w + v), 1e-3, "the derivative at a node is not Akima's mean of the slopes around it"); sym_cover("weighted"); }
}
ENTRY(c39_symbolic) { std::vector<double> x, y = vals(5); double p = sym_double("x", -10, 10); for (int i = 0; i < 5; i++) { x.push_back(p); p += sym_double("gap", 0.1, 10); } AkimaSpline::shared_ptr s = make(x, y); int i = sym_choice("node", 5); sym_assert_close(s->Value(x[i]), y[i], 1e-6, "the spline does not take a node's value"); sym_cover("done"); }
ENTRY(c39_range) {
  int g = sym_choice("grid", 4), n = 5 + sym_choice("n", 3); std::vector<double> x = grid(g, n), y; for (int i = 0; i < n; i++) y.push_back((i * 5) % 3 + 0.5 * i); AkimaSpline::shared_ptr s = make(x, y); double t = sym_double_any("t"); int in = sym_and(t >= x[0], t <= x[n - 1]);
  bool threw = THROWS(s->Value(t)); if (threw) { sym_assert(!in, "an argument between the nodes is refused"); sym_cover("outside"); } else { sym_assert(in, "an argument outside the nodes is answered"); sym_cover("inside"); }
}
ENTRY(c39_reject) {
  int n = sym_choice("n", 8), m = sym_choice("m", 8); std::vector<double> x, y; for (int i = 0; i < n; i++) x.push_back(i); for (int i = 0; i < m; i++) y.push_back(i % 3); AkimaSpline::shared_ptr s = AkimaSpline::Create(); double t = sym_double_any("t"); sym_assert(THROWS(s->Value(t)), "a spline answers before initialisation"); sym_cover("uninitialised");
  bool threw = THROWS(s->Initialize(x, y)); if (n < 5 || m < 5) { sym_assert(threw, "fewer than 5 nodes are accepted"); sym_cover("few"); } else if (n != m) { sym_assert(threw, "different numbers of abscissas and values are accepted"); sym_cover("inconsistent"); } else { sym_assert(!threw, "valid nodes are rejected"); sym_assert(!THROWS(s->Value(2.5)), "an initialised spline does not answer"); sym_cover("ok"); return; }
  sym_assert(THROWS(s->Value(t)), "a spline answers after a failed initialisation");
}
ENTRY(c39_again) { int n = 5 + sym_choice("n", 3), m = 5 + sym_choice("m", 3); std::vector<double> x = grid(0, n), y = vals(n), u = grid(1, m), v = vals(m); AkimaSpline::shared_ptr s = make(x, y); s->Value(2.5); s->Initialize(u, v); nodes(*s, u, v); sym_assert(THROWS(s->Value(u[0] - 0.5)) && THROWS(s->Value(u[m - 1] + 0.5)), "the range is not the one of the last initialisation"); sym_cover("done"); }
ENTRY(c39_many) {
  static const int N[] = {12, 17, 20, 33, 65, 100, 300}; int n = N[sym_choice("n", 7)]; std::vector<double> x = grid(sym_choice("grid", 2) ? 2 : 0, n), y; int w = sym_choice("at", 4);
  if (w == 3) { double a = sym_double("a", -10, 10), b = sym_double("b", -10, 10); for (int i = 0; i < n; i++) y.push_back(a * (x[i] - x[0]) + b); AkimaSpline::shared_ptr s = make(x, y); for (int i = 0; i < n - 1; i++) sym_assert_close(s->Value(x[i] + 0.25), a * (x[i] + 0.25 - x[0]) + b, 1e-6, "the spline does not reproduce a straight line"); sym_cover("done"); return; }
  int at = w == 0 ? 0 : w == 1 ? n / 2 : n - 5; for (int i = 0; i < n; i++) y.push_back(i >= at && i < at + 5 ? sym_double("y", -100, 100) : (i * 5) % 7 - 2.5); std::vector<double> x0 = x, y0 = y; AkimaSpline::shared_ptr s = make(x, y); nodes(*s, x0, y0); sym_assert(THROWS(s->Value(x0[0] - 0.5)) && THROWS(s->Value(x0[n - 1] + 0.5)), "an argument outside the nodes is answered"); sym_cover("done");
}
