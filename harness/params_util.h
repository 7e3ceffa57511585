#pragma once
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <vector>
#include "sym.h"
#include "util.h"
using namespace k52::optimization;
typedef ChromosomeType Chr;
static int sameBits(const Chr& a, const Chr& b, size_t from = 0, size_t to = (size_t)-1) {
  int s = a.size() == b.size();
  for (size_t i = from; i < a.size() && i < b.size() && i < to; i++) s = sym_and(s, (bool)a[i] == (bool)b[i]);
  return s;
}
static Chr chrOf(const IDiscreteParameters& p) { Chr c(p.GetChromosomeSize()); p.SetChromosome(c.begin(), c.end()); return c; }
static Chr symBits(size_t n, const char* name = "bit") { Chr c(n); for (size_t i = 0; i < n; i++) c[i] = sym_bool(name); return c; }
static int valueOf(const IDiscreteParameters::shared_ptr& p) { return static_cast<IntParameter*>(p.get())->get_value(); }
