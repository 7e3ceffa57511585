#pragma once
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/continuous_optimizer.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <vector>
#include "sym.h"
#include "util.h"
using namespace k52::optimization;
typedef std::vector<double> Pt;
// An objective about which nothing is known: an uninterpreted function, every call logged.
struct Log { std::vector<Pt> p; std::vector<double> v; size_t limit; Log() : limit(0) {} };
// A known function, free at one point only: the one that is the `at`-th new point evaluated. For long searches in many dimensions.
struct Spike {
  bool on; int at, shape; double v; std::vector<Pt> p; Spike() : on(false), at(0), shape(0), v(0) {}
  void arm(int a, int s, double lo = -64, double hi = 64) { on = true; at = a; shape = s; v = sym_double("spike", lo, hi); }
  double value(const Pt& x) {
    size_t i = 0; while (i < p.size() && p[i] != x) i++; if (i == p.size()) p.push_back(x); if ((int)i == at) return v; if (shape == 0) { double r = 0; for (size_t j = 0; j < x.size(); j++) { double d = x[j] - 0.75 + 0.5 * j; d *= d; r += d < 2500 ? d : 2500; } return r; }
    long h = 7; for (size_t j = 0; j < x.size(); j++) h = (h * 31 + (long)(x[j] * 64)) % 99991; if (h < 0) h = -h; return (h % 509) * 0.125 - 32;
  }
};
static Spike spike;
struct Fn : ContinuousObjectiveFunction {
  Log* log; bool neg; double lo, hi; const char* nm;
  Fn(Log* l, bool n = false, double lo_ = -1e6, double hi_ = 1e6, const char* name = "f") : log(l), neg(n), lo(lo_), hi(hi_), nm(name) {}
  using ContinuousObjectiveFunction::operator();
  double at(const Pt& x) const { if (spike.on) { double v = spike.value(x); return neg ? -v : v; } char n[3] = {nm[0], (char)('0' + x.size()), 0}; double v = sym_uf(n, (int)x.size(), x.data(), lo, hi); return neg ? -v : v; }
  virtual double operator()(const Pt& x) const { double v = at(x); if (log) { if (log->limit && log->p.size() >= log->limit) sym_assume(0); log->p.push_back(x); log->v.push_back(v); } return v; }
  virtual Fn* Clone() const { return new Fn(log, neg, lo, hi, nm); }
};
static int same(const Pt& a, const Pt& b) { int s = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); i++) s = sym_and(s, a[i] == b[i]); return s; }
static int member(const std::vector<Pt>& ps, const Pt& x) { int s = 0; for (size_t i = 0; i < ps.size(); i++) s = sym_or(s, same(ps[i], x)); return s; }
static int inside(const Pt& x, double lo, double hi) { int s = 1; for (size_t i = 0; i < x.size(); i++) s = sym_and(s, sym_and(x[i] >= lo, x[i] <= hi)); return s; }
static Pt run(ContinuousOptimizer& o, const ContinuousObjectiveFunction& f, const Pt& start, bool maximize) { ContinuousParametersArray a(start); o.Optimize(f, &a, maximize); return a.GetValues(); }
