#include "solver.h"
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <numeric>
#include <unistd.h>

static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, zerr);
  fp64 = Z3_mk_fpa_sort_double(ctx);
  rne = Z3_mk_fpa_rne(ctx); rna = Z3_mk_fpa_rna(ctx); rtz = Z3_mk_fpa_rtz(ctx); rtp = Z3_mk_fpa_rtp(ctx); rtn = Z3_mk_fpa_rtn(ctx);
}
Z3_sort Solver::sortOf(S s, unsigned w) {
  switch (s) {
    case S::Bool: return Z3_mk_bool_sort(ctx);
    case S::BV: return Z3_mk_bv_sort(ctx, w);
    case S::FP: return fp64;
    default: return Z3_mk_real_sort(ctx);
  }
}
static std::string dec2(std::string s, int k) { // s * 2^k (decimal strings)
  for (int i = 0; i < k; i++) {
    int c = 0;
    for (int j = (int)s.size() - 1; j >= 0; j--) { int v = (s[j] - '0') * 2 + c; s[j] = '0' + v % 10; c = v / 10; }
    if (c) s.insert(s.begin(), '0' + c);
  }
  return s;
}
Z3_ast Solver::realConst(double d) {
  if (!std::isfinite(d)) { fprintf(stderr, "non-finite constant reached the real solver\n"); d = 0; }
  if (d == 0) return Z3_mk_numeral(ctx, "0", Z3_mk_real_sort(ctx));
  int ex; double m = std::frexp(std::fabs(d), &ex);
  uint64_t mi = (uint64_t)std::ldexp(m, 53); ex -= 53;
  while (!(mi & 1)) { mi >>= 1; ex++; }
  std::string s = std::to_string(mi);
  if (ex > 0) s = dec2(s, ex);
  else if (ex < 0) s += "/" + dec2("1", -ex);
  if (d < 0) s = "-" + s;
  return Z3_mk_numeral(ctx, s.c_str(), Z3_mk_real_sort(ctx));
}
Z3_ast Solver::bitSum(Z3_ast bv, unsigned w, bool sgn) { // the integer a bit-vector stands for, as a real
  std::vector<Z3_ast> t; Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), zero = realConst(0);
  for (unsigned i = 0; i < w; i++) {
    Z3_ast b = Z3_simplify(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, i, i, bv), one));
    if (Z3_get_bool_value(ctx, b) == Z3_L_FALSE) continue;
    t.push_back(Z3_mk_ite(ctx, b, realConst(sgn && i == w - 1 ? -std::ldexp(1.0, i) : std::ldexp(1.0, i)), zero));
  }
  if (t.empty()) return zero;
  return t.size() == 1 ? t[0] : Z3_mk_add(ctx, t.size(), t.data());
}
Z3_ast Solver::tr(Expr* root) {
  if (root->z) return root->z;
  std::vector<Expr*> st{root};
  while (!st.empty()) {
    Expr* e = st.back();
    if (e->z) { st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < e->n; i++) if (!e->a[i]->z) { st.push_back(e->a[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    std::vector<Z3_ast> a(e->n + 1);
    for (unsigned i = 0; i < e->n; i++) a[i] = e->a[i]->z;
    e->z = toZ(e->k, e, a.data());
    Z3_inc_ref(ctx, e->z);
  }
  return root->z;
}
static bool fpArith(Expr* e) {
  if (e->n == 0 || e->a[0]->s == S::Real || e->s == S::Real) return false;
  switch (e->k) { case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FSqrt: case K::FToS: case K::FToU: case K::FFromS: case K::FFromU: case K::FFloor: case K::FCeil: case K::FTrunc: case K::FRoundEven: case K::FRoundAway: return true; default: return false; }
}
static bool hasFPArith(Expr* e) {
  static std::unordered_map<uint32_t, bool> memo;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = fpArith(e);
  for (unsigned i = 0; i < e->n && !r; i++) r = hasFPArith(e->a[i]);
  memo[e->id] = r; return r;
}
// an interval of finite values that contains every value of an IEEE expression (rounding to nearest is monotone)
static bool fpRange(Expr* e, double& lo, double& hi) {
  struct R { bool ok; double lo, hi; };
  static std::unordered_map<uint32_t, R> memo;
  auto it = memo.find(e->id);
  if (it == memo.end()) {
    R r{false, 0, 0}; double a = 0, b = 0, c = 0, d = 0;
    switch (e->k) {
      case K::Const: r = {true, e->d, e->d}; break;
      case K::Var: r = {true, g_vars[e->var].lo, g_vars[e->var].hi}; break;
      case K::FFromS: case K::FFromU: r = {true, e->lo, e->hi}; break;
      case K::FNeg: if (fpRange(e->a[0], a, b)) r = {true, -b, -a}; break;
      case K::FAbs: if (fpRange(e->a[0], a, b)) r = {true, a > 0 ? a : b < 0 ? -b : 0.0, std::max(std::fabs(a), std::fabs(b))}; break;
      case K::FSqrt: if (fpRange(e->a[0], a, b) && a >= 0) r = {true, std::sqrt(a), std::sqrt(b)}; break;
      case K::FFloor: case K::FCeil: case K::FTrunc: case K::FRoundEven: case K::FRoundAway: if (fpRange(e->a[0], a, b)) r = {true, std::floor(a), std::ceil(b)}; break;
      case K::Ite: if (fpRange(e->a[1], a, b) && fpRange(e->a[2], c, d)) r = {true, std::min(a, c), std::max(b, d)}; break;
      case K::FAdd: if (fpRange(e->a[0], a, b) && fpRange(e->a[1], c, d)) r = {true, a + c, b + d}; break;
      case K::FSub: if (fpRange(e->a[0], a, b) && fpRange(e->a[1], c, d)) r = {true, a - d, b - c}; break;
      case K::FMul: if (fpRange(e->a[0], a, b) && fpRange(e->a[1], c, d)) { double p[4] = {a * c, a * d, b * c, b * d}; r = {true, *std::min_element(p, p + 4), *std::max_element(p, p + 4)}; } break;
      case K::FDiv: if (fpRange(e->a[0], a, b) && fpRange(e->a[1], c, d) && (c > 0 || d < 0)) { double p[4] = {a / c, a / d, b / c, b / d}; r = {true, *std::min_element(p, p + 4), *std::max_element(p, p + 4)}; } break;
      default: break;
    }
    if (!std::isfinite(r.lo) || !std::isfinite(r.hi)) r.ok = false;
    it = memo.emplace(e->id, r).first;
  }
  lo = it->second.lo; hi = it->second.hi; return it->second.ok;
}
Z3_ast Solver::trAbs(Expr* root) {
  if (!hasFPArith(root)) return tr(root);
  std::vector<Expr*> st{root};
  while (!st.empty()) {
    Expr* e = st.back();
    if (absZ.count(e->id)) { st.pop_back(); continue; }
    Z3_ast r;
    if (!hasFPArith(e)) r = tr(e);
    else if (fpArith(e)) r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("abs!" + std::to_string(e->id)).c_str()), sortOf(e->s, e->w));
    else {
      bool ready = true;
      for (unsigned i = 0; i < e->n; i++) if (!absZ.count(e->a[i]->id)) { st.push_back(e->a[i]); ready = false; }
      if (!ready) continue;
      std::vector<Z3_ast> a(e->n + 1);
      for (unsigned i = 0; i < e->n; i++) a[i] = absZ[e->a[i]->id];
      r = toZ(e->k, e, a.data());
    }
    Z3_inc_ref(ctx, r); absZ[e->id] = r; st.pop_back();
  }
  return absZ[root->id];
}
// facts about correctly rounded operations that need no bit-level reasoning: ranges, signs, monotonicity
void Solver::absSides(const std::vector<Expr*>& cs, std::vector<Z3_ast>& out) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> st(cs.begin(), cs.end()), ops;
  while (!st.empty()) {
    Expr* e = st.back(); st.pop_back();
    if (!seen.insert(e).second || !hasFPArith(e)) continue;
    double lo, hi;
    if (fpArith(e) && e->s == S::FP && fpRange(e, lo, hi)) {
      trAbs(e);
      out.push_back(Z3_mk_fpa_geq(ctx, absZ[e->id], Z3_mk_fpa_numeral_double(ctx, lo, fp64))); out.push_back(Z3_mk_fpa_leq(ctx, absZ[e->id], Z3_mk_fpa_numeral_double(ctx, hi, fp64)));
      if (e->n == 2 && e->a[0]->s == S::FP) ops.push_back(e);
    }
    for (unsigned i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
  if (ops.size() > 40) return;
  Z3_ast zero = Z3_mk_fpa_numeral_double(ctx, 0.0, fp64);
  auto le = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_leq(ctx, x, y); };
  auto lt = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_lt(ctx, x, y); };
  auto eq = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_eq(ctx, x, y); };
  auto imp = [&](Z3_ast c, Z3_ast d) { out.push_back(Z3_mk_implies(ctx, c, d)); };
  auto both = [&](Z3_ast c, Z3_ast d) { Z3_ast q[2] = {c, d}; return Z3_mk_and(ctx, 2, q); };
  double lo, hi;
  for (Expr* e : ops) {
    Z3_ast r = absZ[e->id], x = trAbs(e->a[0]), y = trAbs(e->a[1]);
    if (e->k == K::FSub) { out.push_back(Z3_mk_iff(ctx, lt(x, y), lt(r, zero))); out.push_back(Z3_mk_iff(ctx, eq(x, y), eq(r, zero))); imp(le(zero, y), le(r, x)); imp(le(y, zero), le(x, r)); }
    if (e->k == K::FAdd) { imp(le(zero, y), le(x, r)); imp(le(y, zero), le(r, x)); imp(le(zero, x), le(y, r)); imp(le(x, zero), le(r, y)); }
    if (e->k == K::FMul) {
      imp(both(le(zero, x), le(zero, y)), le(zero, r)); imp(both(le(x, zero), le(y, zero)), le(zero, r)); imp(both(le(zero, x), le(y, zero)), le(r, zero)); imp(both(le(x, zero), le(zero, y)), le(r, zero));
      for (int i = 0; i < 2; i++) if (fpRange(e->a[i], lo, hi) && lo >= -1 && hi <= 1) { Z3_ast o = i ? x : y; out.push_back(le(Z3_mk_fpa_abs(ctx, r), Z3_mk_fpa_abs(ctx, o))); }
    }
    if (e->k == K::FDiv) { imp(both(le(zero, x), lt(zero, y)), le(zero, r)); imp(both(le(x, zero), lt(zero, y)), le(r, zero)); imp(both(le(zero, x), lt(y, zero)), le(r, zero)); imp(both(le(x, zero), lt(y, zero)), le(zero, r)); if (fpRange(e->a[1], lo, hi) && lo >= 1) out.push_back(le(Z3_mk_fpa_abs(ctx, r), Z3_mk_fpa_abs(ctx, x))); }
  }
  for (size_t i = 0; i < ops.size(); i++) for (size_t j = 0; j < ops.size(); j++) if (i != j && ops[i]->k == ops[j]->k) { // f increasing in the operand that differs
    Expr *p = ops[i], *q = ops[j]; Z3_ast r = absZ[p->id], s = absZ[q->id];
    for (int side = 0; side < 2; side++) for (int sq = 0; sq < 2; sq++) {
      if (side != sq && p->k != K::FAdd && p->k != K::FMul) continue;
      Expr *c = p->a[1 - side], *c2 = q->a[1 - sq]; if (c != c2) continue;
      Z3_ast x = trAbs(p->a[side]), y = trAbs(q->a[sq]), zc = trAbs(c);
      switch (p->k) {
        case K::FAdd: imp(le(x, y), le(r, s)); break;
        case K::FSub: side == 0 ? imp(le(x, y), le(r, s)) : imp(le(x, y), le(s, r)); break;
        case K::FMul: imp(both(le(x, y), le(zero, zc)), le(r, s)); imp(both(le(x, y), le(zc, zero)), le(s, r)); break;
        case K::FDiv: if (side == 0) { imp(both(le(x, y), lt(zero, zc)), le(r, s)); imp(both(le(x, y), lt(zc, zero)), le(s, r)); } break;
        default: break;
      }
    }
  }
}
Z3_ast Solver::toZ(K k, Expr* e, Z3_ast* a) {
  bool real = e->n && (e->a[0]->s == S::Real);
  if (k == K::Ite) real = false;
  Z3_ast z2[2] = {e->n > 0 ? a[0] : nullptr, e->n > 1 ? a[1] : nullptr};
  switch (k) {
    case K::Const:
      switch (e->s) {
        case S::Bool: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        case S::BV: {
          if (e->w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)e->c, Z3_mk_bv_sort(ctx, e->w));
          return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(e->c >> 64), Z3_mk_bv_sort(ctx, e->w - 64)), Z3_mk_unsigned_int64(ctx, (uint64_t)e->c, Z3_mk_bv_sort(ctx, 64)));
        }
        case S::FP: return Z3_mk_fpa_numeral_double(ctx, e->d, fp64);
        default: return realConst(e->d);
      }
    case K::Var: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, g_vars[e->var].name.c_str()), sortOf(e->s, e->w));
    case K::UF: {
      auto& f = ufs[e->var];
      if (!f) {
        std::vector<Z3_sort> ds;
        for (unsigned i = 0; i < e->n; i++) ds.push_back(sortOf(e->a[i]->s, e->a[i]->w));
        f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, g_vars[e->var].name.c_str()), ds.size(), ds.data(), sortOf(e->s, e->w));
        Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f));
      }
      return Z3_mk_app(ctx, f, e->n, a);
    }
    case K::Add: return Z3_mk_bvadd(ctx, a[0], a[1]);
    case K::Sub: return Z3_mk_bvsub(ctx, a[0], a[1]);
    case K::Mul: return Z3_mk_bvmul(ctx, a[0], a[1]);
    case K::UDiv: return Z3_mk_bvudiv(ctx, a[0], a[1]);
    case K::SDiv: return Z3_mk_bvsdiv(ctx, a[0], a[1]);
    case K::URem: return Z3_mk_bvurem(ctx, a[0], a[1]);
    case K::SRem: return Z3_mk_bvsrem(ctx, a[0], a[1]);
    case K::And: return Z3_mk_bvand(ctx, a[0], a[1]);
    case K::Or: return Z3_mk_bvor(ctx, a[0], a[1]);
    case K::Xor: return Z3_mk_bvxor(ctx, a[0], a[1]);
    case K::Shl: return Z3_mk_bvshl(ctx, a[0], a[1]);
    case K::LShr: return Z3_mk_bvlshr(ctx, a[0], a[1]);
    case K::AShr: return Z3_mk_bvashr(ctx, a[0], a[1]);
    case K::Concat: return Z3_mk_concat(ctx, a[0], a[1]);
    case K::Extract: return Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, a[0]);
    case K::ZExt: return Z3_mk_zero_ext(ctx, e->w - e->a[0]->w, a[0]);
    case K::SExt: return Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, a[0]);
    case K::Eq: return Z3_mk_eq(ctx, a[0], a[1]);
    case K::Ult: return Z3_mk_bvult(ctx, a[0], a[1]);
    case K::Ule: return Z3_mk_bvule(ctx, a[0], a[1]);
    case K::Slt: return Z3_mk_bvslt(ctx, a[0], a[1]);
    case K::Sle: return Z3_mk_bvsle(ctx, a[0], a[1]);
    case K::Not: return Z3_mk_not(ctx, a[0]);
    case K::BAnd: return Z3_mk_and(ctx, 2, z2);
    case K::BOr: return Z3_mk_or(ctx, 2, z2);
    case K::Ite: return Z3_mk_ite(ctx, a[0], a[1], a[2]);
    case K::FAdd: return real ? Z3_mk_add(ctx, 2, z2) : Z3_mk_fpa_add(ctx, rne, a[0], a[1]);
    case K::FSub: return real ? Z3_mk_sub(ctx, 2, z2) : Z3_mk_fpa_sub(ctx, rne, a[0], a[1]);
    case K::FMul: return real ? Z3_mk_mul(ctx, 2, z2) : Z3_mk_fpa_mul(ctx, rne, a[0], a[1]);
    case K::FDiv: return real ? Z3_mk_div(ctx, a[0], a[1]) : Z3_mk_fpa_div(ctx, rne, a[0], a[1]);
    case K::FNeg: return real ? Z3_mk_unary_minus(ctx, a[0]) : Z3_mk_fpa_neg(ctx, a[0]);
    case K::FAbs: return real ? Z3_mk_ite(ctx, Z3_mk_ge(ctx, a[0], realConst(0)), a[0], Z3_mk_unary_minus(ctx, a[0])) : Z3_mk_fpa_abs(ctx, a[0]);
    case K::FSqrt:
      if (real) return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("sqrt!" + std::to_string(e->id)).c_str()), Z3_mk_real_sort(ctx));
      return Z3_mk_fpa_sqrt(ctx, rne, a[0]);
    case K::FErr: return ({ Z3_ast v[2] = {a[0], Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("err!" + std::to_string(e->a[0]->id)).c_str()), Z3_mk_real_sort(ctx))}; Z3_mk_add(ctx, 2, v); });
    case K::FFloor: return real ? Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, a[0])) : Z3_mk_fpa_round_to_integral(ctx, rtn, a[0]);
    case K::FCeil: return real ? Z3_mk_unary_minus(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, Z3_mk_unary_minus(ctx, a[0])))) : Z3_mk_fpa_round_to_integral(ctx, rtp, a[0]);
    case K::FTrunc:
      if (real) {
        Z3_ast z = realConst(0), n = Z3_mk_unary_minus(ctx, a[0]);
        return Z3_mk_ite(ctx, Z3_mk_ge(ctx, a[0], z), Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, a[0])), Z3_mk_unary_minus(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, n))));
      }
      return Z3_mk_fpa_round_to_integral(ctx, rtz, a[0]);
    case K::FRoundEven: case K::FRoundAway:
      if (real) { // ties are not distinguished from round-half-up
        Z3_ast v[2] = {a[0], realConst(0.5)};
        return Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, Z3_mk_add(ctx, 2, v)));
      }
      return Z3_mk_fpa_round_to_integral(ctx, k == K::FRoundEven ? rne : rna, a[0]);
    case K::FLt: return real ? Z3_mk_lt(ctx, a[0], a[1]) : Z3_mk_fpa_lt(ctx, a[0], a[1]);
    case K::FLe: return real ? Z3_mk_le(ctx, a[0], a[1]) : Z3_mk_fpa_leq(ctx, a[0], a[1]);
    case K::FEq: return real ? Z3_mk_eq(ctx, a[0], a[1]) : Z3_mk_fpa_eq(ctx, a[0], a[1]);
    case K::FIsNan: return Z3_mk_fpa_is_nan(ctx, a[0]);
    case K::FIsInf: return Z3_mk_fpa_is_infinite(ctx, a[0]);
    case K::FFromS: case K::FFromU:
      if (e->s == S::Real) return bitSum(a[0], e->a[0]->w, k == K::FFromS);
      return k == K::FFromS ? Z3_mk_fpa_to_fp_signed(ctx, rne, a[0], fp64) : Z3_mk_fpa_to_fp_unsigned(ctx, rne, a[0], fp64);
    case K::FToS: case K::FToU: {
      if (real) return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("toi!" + std::to_string(e->id)).c_str()), Z3_mk_bv_sort(ctx, e->w)); // defined in sides()
      // out-of-range conversions give the x86 "integer indefinite" value
      double lo = k == K::FToS ? -std::ldexp(1.0, e->w - 1) : 0, hi = k == K::FToS ? std::ldexp(1.0, e->w - 1) : std::ldexp(1.0, e->w);
      Z3_ast c[2];
      if (e->w < 53 || k == K::FToU) c[0] = Z3_mk_fpa_gt(ctx, a[0], Z3_mk_fpa_numeral_double(ctx, lo - 1, fp64));
      else c[0] = Z3_mk_fpa_geq(ctx, a[0], Z3_mk_fpa_numeral_double(ctx, lo, fp64));
      c[1] = Z3_mk_fpa_lt(ctx, a[0], Z3_mk_fpa_numeral_double(ctx, hi, fp64));
      Z3_ast v = k == K::FToS ? Z3_mk_fpa_to_sbv(ctx, rtz, a[0], e->w) : Z3_mk_fpa_to_ubv(ctx, rtz, a[0], e->w);
      Z3_ast ind = Z3_mk_unsigned_int64(ctx, 1ULL << (e->w - 1), Z3_mk_bv_sort(ctx, e->w));
      return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, c), v, ind);
    }
    case K::FFromBits:
      if (e->s == S::Real) { fprintf(stderr, "bit-level real\n"); abort(); }
      return Z3_mk_fpa_to_fp_bv(ctx, a[0], fp64);
    case K::FBits:
      if (real) { fprintf(stderr, "bit-level real\n"); abort(); }
      return Z3_mk_fpa_to_ieee_bv(ctx, a[0]);
  }
  abort();
}
void Solver::sides(const std::vector<Expr*>& cs, std::vector<Z3_ast>& out) {
  if (!g_realMode) {
    bool hasUF = false; (void)hasUF;
  }
  std::unordered_set<Expr*> seen; std::vector<Expr*> st(cs.begin(), cs.end());
  std::vector<std::pair<K, Expr*>> trig;
  while (!st.empty()) {
    Expr* e = st.back(); st.pop_back();
    if (!seen.insert(e).second) continue;
    if (e->k == K::FSqrt && e->s == S::Real) {
      Z3_ast r = tr(e), m[2] = {r, r};
      out.push_back(Z3_mk_ge(ctx, r, realConst(0)));
      out.push_back(Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, m), Z3_mk_ite(ctx, Z3_mk_ge(ctx, tr(e->a[0]), realConst(0)), tr(e->a[0]), realConst(0))));
    }
    if ((e->k == K::FToS || e->k == K::FToU) && e->a[0]->s == S::Real) {
      Z3_ast v = bitSum(tr(e), e->w, e->k == K::FToS), x = tr(e->a[0]), one = realConst(1), pl[2] = {v, one};
      Z3_ast p[2] = {Z3_mk_le(ctx, v, x), Z3_mk_lt(ctx, x, Z3_mk_add(ctx, 2, pl))}, n[2] = {Z3_mk_ge(ctx, v, x), Z3_mk_gt(ctx, x, Z3_mk_sub(ctx, 2, pl))};
      out.push_back(Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, realConst(0)), Z3_mk_and(ctx, 2, p), Z3_mk_and(ctx, 2, n)));
    }
    if (e->k == K::URem && e->a[1]->k != K::Const) { // a lemma the bit-blaster does not see by itself
      Z3_ast d = tr(e->a[1]), o[2] = {Z3_mk_eq(ctx, d, Z3_mk_int(ctx, 0, Z3_get_sort(ctx, d))), Z3_mk_bvult(ctx, tr(e), d)};
      out.push_back(Z3_mk_or(ctx, 2, o));
    }
    if (e->k == K::FErr) {
      Expr* b = e->a[0];
      Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("err!" + std::to_string(b->id)).c_str()), Z3_mk_real_sort(ctx));
      if (std::isfinite(b->err)) {
        out.push_back(Z3_mk_le(ctx, v, realConst(b->err)));
        out.push_back(Z3_mk_ge(ctx, v, realConst(-b->err)));
      }
    }
    if (e->k == K::UF) {
      auto& vi = g_vars[e->var];
      if (e->s == S::Real) {
        if (std::isfinite(vi.lo)) out.push_back(Z3_mk_ge(ctx, tr(e), realConst(vi.lo)));
        if (std::isfinite(vi.hi)) out.push_back(Z3_mk_le(ctx, tr(e), realConst(vi.hi)));
      } else if (e->s == S::FP) {
        if (!std::isnan(vi.lo)) { // lo = NaN marks "any double"
          if (std::isfinite(vi.lo)) out.push_back(Z3_mk_fpa_geq(ctx, tr(e), Z3_mk_fpa_numeral_double(ctx, vi.lo, fp64)));
          else out.push_back(Z3_mk_fpa_geq(ctx, tr(e), Z3_mk_fpa_numeral_double(ctx, -1.7976931348623157e308, fp64)));
          if (std::isfinite(vi.hi)) out.push_back(Z3_mk_fpa_leq(ctx, tr(e), Z3_mk_fpa_numeral_double(ctx, vi.hi, fp64)));
          else out.push_back(Z3_mk_fpa_leq(ctx, tr(e), Z3_mk_fpa_numeral_double(ctx, 1.7976931348623157e308, fp64)));
        }
      }
    }
    for (unsigned i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
}
std::vector<Expr*> Solver::slice(const std::vector<Expr*>& pc, const std::vector<uint32_t>& vars0) {
  std::unordered_set<uint32_t> vs(vars0.begin(), vars0.end());
  std::vector<char> in(pc.size(), 0);
  std::vector<Expr*> r;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
      auto& v = varsOf(pc[i]);
      bool hit = false;
      for (uint32_t x : v) if (vs.count(x)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; vs.insert(v.begin(), v.end()); }
    }
  }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}
static bool hasReal(Expr* e) {
  static std::unordered_map<uint32_t, bool> memo;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->s == S::Real;
  for (unsigned i = 0; i < e->n && !r; i++) r = hasReal(e->a[i]);
  memo[e->id] = r; return r;
}
static bool onlyBV(Expr* e) {
  static std::unordered_map<uint32_t, bool> memo;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = (e->s == S::BV || e->s == S::Bool) && e->k != K::UF;
  for (unsigned i = 0; i < e->n && r; i++) r = onlyBV(e->a[i]);
  memo[e->id] = r; return r;
}
static double dOf(u128 v) { uint64_t u = (uint64_t)v; double d; memcpy(&d, &u, 8); return d; }
static u128 uOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
// value of e (bit-vectors, booleans, IEEE doubles) when the leaves have the values of a kept model; false: not determined
bool Solver::evalKept(Kept& m, Expr* e, u128& v) {
  if (e->isConst()) { v = e->s == S::FP || e->s == S::Real ? uOf(e->d) : e->c; return true; }
  auto it = m.memo.find(e->id);
  if (it != m.memo.end()) { v = it->second.second; return it->second.first; }
  u128 r = 0; bool ok = true;
  if (e->k == K::Var || e->k == K::UF) {
    auto l = m.leaf.find(e->id);
    if (l != m.leaf.end()) r = l->second;
    else if (e->k == K::UF) ok = false;
    if (e->k == K::UF) for (unsigned i = 0; i < e->n; i++) if (!e->a[i]->isConst()) ok = false;
  } else {
    u128 x[3] = {0, 0, 0}; 
    if (e->n > 3) ok = false;
    if (e->k == K::Ite) { ok = evalKept(m, e->a[0], x[0]) && evalKept(m, e->a[x[0] ? 1 : 2], r); }
    else if (e->k == K::BAnd) { ok = evalKept(m, e->a[0], x[0]); if (ok && x[0]) ok = evalKept(m, e->a[1], x[1]); r = x[0] && x[1]; }
    else if (e->k == K::BOr) { ok = evalKept(m, e->a[0], x[0]); if (ok && !x[0]) ok = evalKept(m, e->a[1], x[1]); r = x[0] || x[1]; }
    else {
      for (unsigned i = 0; i < e->n && ok; i++) ok = evalKept(m, e->a[i], x[i]);
      if (ok) {
        unsigned w = e->w, aw = e->a[0]->w; i128 sx = e->a[0]->s == S::BV ? sextW(x[0], aw) : 0, sy = e->n > 1 && e->a[1]->s == S::BV ? sextW(x[1], e->a[1]->w) : 0;
        double dx = dOf(x[0]), dy = dOf(x[1]), q; bool rl = e->a[0]->s == S::Real; // over the reals a result counts only when it is exact
        switch (e->k) {
          case K::Add: r = x[0] + x[1]; break; case K::Sub: r = x[0] - x[1]; break; case K::Mul: r = x[0] * x[1]; break;
          case K::UDiv: if (x[1]) r = x[0] / x[1]; else ok = false; break;
          case K::URem: if (x[1]) r = x[0] % x[1]; else ok = false; break;
          case K::SDiv: if (sy) r = sy == -1 ? (u128)0 - x[0] : (u128)(sx / sy); else ok = false; break;
          case K::SRem: if (sy) r = sy == -1 ? 0 : (u128)(sx % sy); else ok = false; break;
          case K::And: r = x[0] & x[1]; break; case K::Or: r = x[0] | x[1]; break; case K::Xor: r = x[0] ^ x[1]; break;
          case K::Shl: r = x[1] >= w ? 0 : x[0] << (unsigned)x[1]; break;
          case K::LShr: r = x[1] >= w ? 0 : x[0] >> (unsigned)x[1]; break;
          case K::AShr: r = x[1] >= w ? (sx < 0 ? ~(u128)0 : 0) : (u128)(sx >> (unsigned)x[1]); break;
          case K::Concat: r = (x[0] << e->a[1]->w) | x[1]; break;
          case K::Extract: r = x[0] >> (unsigned)e->c; break;
          case K::ZExt: r = x[0]; break; case K::SExt: r = (u128)(e->a[0]->s == S::BV ? sx : (x[0] ? (i128)-1 : 0)); break;
          case K::Eq: if (rl) r = dx == dy; else if (e->a[0]->s == S::FP) r = x[0] == x[1] || (std::isnan(dx) && std::isnan(dy)); else r = x[0] == x[1]; break;
          case K::Ult: r = x[0] < x[1]; break; case K::Ule: r = x[0] <= x[1]; break; case K::Slt: r = sx < sy; break; case K::Sle: r = sx <= sy; break;
          case K::Not: r = !x[0]; break;
          case K::FAdd: case K::FSub: { double y = e->k == K::FAdd ? dy : -dy; q = dx + y; r = uOf(q); if (rl) { double bb = q - dx, er = (dx - (q - bb)) + (y - bb); if (!(er == 0)) ok = false; } break; }
          case K::FMul: q = dx * dy; r = uOf(q); if (rl && (!std::isfinite(q) || std::fma(dx, dy, -q) != 0 || (q != 0 && std::fabs(q) < 1e-200) || (q == 0 && dx != 0 && dy != 0))) ok = false; break;
          case K::FDiv: q = dx / dy; r = uOf(q); if (rl && (dy == 0 || !std::isfinite(q) || std::fma(q, dy, -dx) != 0 || (q == 0 && dx != 0))) ok = false; break;
          case K::FFromS: case K::FFromU: q = e->k == K::FFromS ? (double)sx : (double)x[0]; r = uOf(q); if (e->a[0]->w > 53 && std::fabs(q) > 9007199254740992.0) ok = false; break;
          case K::FNeg: r = uOf(-dx); break; case K::FAbs: r = uOf(std::fabs(dx)); break;
          case K::FLt: r = dx < dy; break; case K::FLe: r = dx <= dy; break; case K::FEq: r = dx == dy; break;
          case K::FIsNan: r = std::isnan(dx); break; case K::FIsInf: r = std::isinf(dx); break;
          default: ok = false;
        }
        if (e->s == S::BV) r &= maskW(w); else if (e->s == S::FP && std::isnan(dOf(r))) r = uOf(NAN);
      }
    }
  }
  m.memo[e->id] = {ok, r}; v = r; return ok;
}
bool Solver::holdsIn(Kept& m, const std::vector<Expr*>& cs) {
  for (Expr* e : cs) { u128 v; if (!evalKept(m, e, v) || !v) return false; }
  return true;
}
void Solver::keep(const std::vector<Expr*>& cs, Z3_model zm) {
  std::unordered_map<uint32_t, u128> lf; std::unordered_set<uint32_t> none; std::unordered_set<Expr*> seen; std::vector<Expr*> st(cs.begin(), cs.end());
  while (!st.empty()) {
    Expr* e = st.back(); st.pop_back();
    if (!seen.insert(e).second) continue;
    if (e->k == K::Var || e->k == K::UF) {
      u128 c = 0; double d = 0; bool got = evalIn(zm, e, c, d);
      if (got && e->s == S::Real) { Z3_ast r; int64_t nu, de; got = Z3_model_eval(ctx, zm, tr(e), true, &r) && Z3_is_numeral_ast(ctx, r) && Z3_get_numeral_rational_int64(ctx, r, &nu, &de) && (de & (de - 1)) == 0 && std::llabs(nu) < (1LL << 53); if (got) d = (double)nu / (double)de; else return; }
      if (got) lf[e->id] = e->s == S::FP || e->s == S::Real ? uOf(d) : c; else none.insert(e->id);
    }
    for (unsigned i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
  Kept* k;
  if (kept.size() < 16) { k = new Kept; kept.insert(kept.begin(), k); }
  else { k = kept.back(); kept.pop_back(); k->leaf.clear(); k->memo.clear(); kept.insert(kept.begin(), k); }
  if (kept.size() > 1) k->leaf = kept[1]->leaf; // variables this query does not mention keep their values
  for (auto& l : lf) k->leaf[l.first] = l.second;
  for (uint32_t i : none) k->leaf.erase(i);
}
// Products and quotients of unknowns as opaque values, after multiplying out: decides what follows linearly.
static bool nonlinear(Expr* e) {
  static std::unordered_map<uint32_t, bool> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->s == S::Real && ((e->k == K::FMul && !e->a[0]->isConst() && !e->a[1]->isConst()) || (e->k == K::FDiv && !e->a[1]->isConst()) || e->k == K::FSqrt);
  for (unsigned i = 0; i < e->n && !r; i++) r = nonlinear(e->a[i]);
  return memo[e->id] = r;
}
static Z3_ast linear(Z3_context ctx, Z3_ast t, std::unordered_map<unsigned, Z3_ast>& memo) {
  if (Z3_get_ast_kind(ctx, t) != Z3_APP_AST) return t;
  unsigned id = Z3_get_ast_id(ctx, t); auto it = memo.find(id); if (it != memo.end()) return it->second;
  Z3_app ap = Z3_to_app(ctx, t); unsigned n = Z3_get_app_num_args(ctx, ap); Z3_decl_kind dk = Z3_get_decl_kind(ctx, Z3_get_app_decl(ctx, ap)); Z3_ast r;
  int free = 0; if (dk == Z3_OP_MUL) for (unsigned i = 0; i < n; i++) if (Z3_get_ast_kind(ctx, Z3_get_app_arg(ctx, ap, i)) != Z3_NUMERAL_AST) free++;
  bool opaque = (dk == Z3_OP_MUL && free > 1) || (dk == Z3_OP_DIV && Z3_get_ast_kind(ctx, Z3_get_app_arg(ctx, ap, 1)) != Z3_NUMERAL_AST) || dk == Z3_OP_POWER;
  if (opaque) {
    std::vector<Z3_ast> c, v; for (unsigned i = 0; i < n; i++) { Z3_ast a = Z3_get_app_arg(ctx, ap, i); (dk == Z3_OP_MUL && Z3_get_ast_kind(ctx, a) == Z3_NUMERAL_AST ? c : v).push_back(a); }
    if (c.empty()) r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("nl!" + std::to_string(id)).c_str()), Z3_mk_real_sort(ctx));
    else { std::vector<Z3_ast> x(v); Z3_ast p = Z3_simplify(ctx, Z3_mk_mul(ctx, x.size(), x.data())), q = linear(ctx, p, memo); c.push_back(q); r = Z3_mk_mul(ctx, c.size(), c.data()); }
  } else if (!n) r = t;
  else { std::vector<Z3_ast> x; for (unsigned i = 0; i < n; i++) x.push_back(linear(ctx, Z3_get_app_arg(ctx, ap, i), memo)); r = Z3_update_term(ctx, t, n, x.data()); }
  return memo[id] = r;
}
static bool linearReal(Expr* e) { // linear real arithmetic over variables only
  static std::unordered_map<uint32_t, bool> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->s == S::Real || e->s == S::Bool;
  if (r) switch (e->k) {
    case K::Const: case K::Var: case K::Eq: case K::Not: case K::BAnd: case K::BOr: case K::Ite: case K::FAdd: case K::FSub: case K::FNeg: case K::FAbs: case K::FLt: case K::FLe: case K::FEq: break;
    case K::FMul: r = e->a[0]->isConst() || e->a[1]->isConst(); break;
    case K::FDiv: r = e->a[1]->isConst(); break;
    default: r = false;
  }
  for (unsigned i = 0; i < e->n && r; i++) r = linearReal(e->a[i]);
  return memo[e->id] = r;
}
Res Solver::checkSet(std::vector<Expr*> cs, Z3_model* m, unsigned tmo) {
  std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key;
  for (Expr* e : cs) {
    if (e->isConst()) { if (!e->c) return Res::Unsat; continue; }
    key.append((const char*)&e->id, 4);
  }
  if (!m) { auto it = cache.find(key); if (it != cache.end()) { st.cacheHits++; return it->second; } }
  if (!m) for (size_t i = 0; i < kept.size(); i++) if (holdsIn(*kept[i], cs)) {
    st.modelHits++; cache[key] = Res::Sat;
    if (i) { Kept* k = kept[i]; kept.erase(kept.begin() + i); kept.insert(kept.begin(), k); }
    return Res::Sat;
  }
  auto t0 = std::chrono::steady_clock::now();
  bool arith = false; for (Expr* e : cs) if (!hasReal(e) && hasFPArith(e)) arith = true;
  if (arith && !m) { // unsatisfiable whatever the floating-point operations yield?
    Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::max(50u, std::min(leftMs, 2000u)));
    Z3_solver_set_params(ctx, s, p);
    for (Expr* e : cs) Z3_solver_assert(ctx, s, trAbs(e));
    std::vector<Z3_ast> sd; absSides(cs, sd);
    for (Z3_ast a : sd) Z3_solver_assert(ctx, s, a);
    Z3_lbool r = Z3_solver_check(ctx, s);
    Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
    if (r == Z3_L_FALSE) {
      double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      st.queries++; st.abstracted++; st.unsat++; st.time += t; st.maxTime = std::max(st.maxTime, t); cache[key] = Res::Unsat; return Res::Unsat;
    }
  }
  bool nl = false; for (Expr* e : cs) if (nonlinear(e)) nl = true;
  static const bool noLin = getenv("SYM_NOLIN") != nullptr;
  if (nl && !m && !noLin) {
    Z3_params sp = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, sp); Z3_params_set_bool(ctx, sp, Z3_mk_string_symbol(ctx, "som"), true); Z3_params_set_uint(ctx, sp, Z3_mk_string_symbol(ctx, "som_blowup"), 1000);
    std::vector<Z3_ast> as; for (Expr* e : cs) as.push_back(tr(e)); sides(cs, as);
    Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s); Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::max(50u, std::min(leftMs, 2000u))); Z3_solver_set_params(ctx, s, p);
    std::unordered_map<unsigned, Z3_ast> memo; std::vector<Z3_ast> keepAlive;
    for (Z3_ast a : as) { a = Z3_simplify_ex(ctx, a, sp); Z3_inc_ref(ctx, a); keepAlive.push_back(a); }
    for (Z3_ast a : keepAlive) Z3_solver_assert(ctx, s, linear(ctx, a, memo));
    Z3_lbool r = Z3_solver_check(ctx, s);
    for (Z3_ast a : keepAlive) Z3_dec_ref(ctx, a);
    Z3_params_dec_ref(ctx, p); Z3_params_dec_ref(ctx, sp); Z3_solver_dec_ref(ctx, s);
    if (r == Z3_L_FALSE) {
      double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      st.queries++; st.abstracted++; st.unsat++; st.time += t; st.maxTime = std::max(st.maxTime, t); cache[key] = Res::Unsat; return Res::Unsat;
    }
  }
  static const char* alt = getenv("SYM_ALT"); bool lin = !alt, hr = false; for (Expr* e : cs) { hr |= hasReal(e); if (!e->isConst() && !linearReal(e)) lin = false; } lin &= hr;
  if (lin && (!lra || ++lraUses % 3000 == 0)) { if (lra) Z3_solver_dec_ref(ctx, lra); lra = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LRA")); Z3_solver_inc_ref(ctx, lra); } // kept: starting a solver costs more than such a query

  bool bv = true; for (Expr* e : cs) if (!onlyBV(e)) bv = false;
  Z3_solver s = lin ? lra : bv && !alt ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : alt && *alt != 'x' ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, alt)) : Z3_mk_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::max(50u, std::min(leftMs, tmo ? tmo : timeoutMs)));
  Z3_solver_set_params(ctx, s, p);
  if (lin) Z3_solver_push(ctx, s);
  for (Expr* e : cs) Z3_solver_assert(ctx, s, tr(e));
  std::vector<Z3_ast> sd; sides(cs, sd);
  for (Z3_ast a : sd) Z3_solver_assert(ctx, s, a);
  Z3_lbool r;
  if (nl && !noLin) { // non-linear arithmetic may ignore its time limit: a child process decides first
    unsigned lim = std::max(50u, std::min(leftMs, tmo ? tmo : timeoutMs)) + 2000; int got = -1;
    pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); Z3_lbool q = Z3_solver_check(ctx, s); _exit(q == Z3_L_TRUE ? 11 : q == Z3_L_FALSE ? 10 : 12); }
    if (pid > 0) {
      for (;;) {
        int stt; pid_t w = waitpid(pid, &stt, WNOHANG);
        if (w == pid) { got = WIFEXITED(stt) ? WEXITSTATUS(stt) : 12; break; }
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el * 1000 > lim) { kill(pid, SIGKILL); waitpid(pid, &stt, 0); got = 12; break; }
        usleep(el < 0.01 ? 200 : el < 0.1 ? 1000 : 10000);
      }
    }
    r = got == 10 ? Z3_L_FALSE : got == 12 ? Z3_L_UNDEF : got == 11 && !m ? Z3_L_TRUE : Z3_solver_check(ctx, s);
    if (got == 11 && !m) {
      Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
      double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      st.queries++; st.sat++; st.time += t; st.maxTime = std::max(st.maxTime, t); cache[key] = Res::Sat; return Res::Sat;
    }
  } else r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (m && res == Res::Sat) { *m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, *m); }
  if (res == Res::Sat) { Z3_model km = m ? *m : Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, km); keep(cs, km); Z3_model_dec_ref(ctx, km); }
  double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static const char* dump = getenv("SYM_DUMP_SLOW");
  if (dump && (t > atof(dump) || res == Res::Unknown)) {
    static int n = 0; char fn[64]; snprintf(fn, sizeof fn, "/tmp/slow_%d_%d.smt2", (int)getpid(), n++);
    FILE* f = fopen(fn, "w"); fprintf(f, "; %.2fs res %d\n%s(check-sat)\n", t, (int)res, Z3_solver_to_string(ctx, s)); fclose(f);
  }
  if (lin) Z3_solver_pop(ctx, s, 1);
  Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
  st.queries++; st.time += t; st.maxTime = std::max(st.maxTime, t);
  if (res == Res::Sat) st.sat++; else if (res == Res::Unsat) st.unsat++; else st.unknown++;
  if (res != Res::Unknown) cache[key] = res;
  return res;
}
Res Solver::check(const std::vector<Expr*>& pc, Expr* cond, Z3_model* m, unsigned tmo) {
  if (cond->isConst() && !cond->c) return Res::Unsat;
  std::vector<Expr*> cs = slice(pc, varsOf(cond));
  cs.push_back(cond);
  return checkSet(cs, m, tmo);
}
Solver::Model Solver::model(const std::vector<Expr*>& pc0, Expr* extra) {
  Model M; std::vector<Expr*> pc = pc0; if (extra) pc.push_back(extra);
  std::vector<char> used(pc.size(), 0);
  for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
    std::vector<Expr*> cs; std::set<uint32_t> vs(varsOf(pc[i]).begin(), varsOf(pc[i]).end());
    used[i] = 1; cs.push_back(pc[i]);
    bool ch = true;
    while (ch) { ch = false;
      for (size_t j = i + 1; j < pc.size(); j++) if (!used[j]) {
        bool hit = false; for (uint32_t x : varsOf(pc[j])) if (vs.count(x)) { hit = true; break; }
        if (hit) { used[j] = 1; cs.push_back(pc[j]); vs.insert(varsOf(pc[j]).begin(), varsOf(pc[j]).end()); ch = true; }
      } }
    Z3_model zm = nullptr;
    if (checkSet(cs, &zm, 0) != Res::Sat) { freeModel(M); return M; }
    M.parts.push_back({std::vector<uint32_t>(vs.begin(), vs.end()), zm});
  }
  M.ok = true; return M;
}
void Solver::freeModel(Model& m) { for (auto& p : m.parts) Z3_model_dec_ref(ctx, p.second); m.parts.clear(); }
bool Solver::evalIn(Z3_model m, Expr* e, u128& c, double& d) {
  Z3_ast z = tr(e), r;
  if (e->s == S::FP) {
    if (!Z3_model_eval(ctx, m, z, true, &r)) return false;
    if (Z3_get_ast_kind(ctx, r) != Z3_VAR_AST && Z3_is_app(ctx, r) && Z3_fpa_is_numeral_nan(ctx, r)) { d = NAN; return true; } // the bit pattern of NaN is unspecified
    z = Z3_mk_fpa_to_ieee_bv(ctx, r);
  }
  if (!Z3_model_eval(ctx, m, z, true, &r)) return false;
  if (e->s == S::Bool) { c = Z3_get_bool_value(ctx, r) == Z3_L_TRUE; return true; }
  if (e->s == S::Real) {
    if (Z3_is_algebraic_number(ctx, r)) { r = Z3_get_algebraic_number_lower(ctx, r, 40); }
    if (Z3_get_ast_kind(ctx, r) != Z3_NUMERAL_AST) return false;
    d = strtod(Z3_get_numeral_decimal_string(ctx, r, 60), nullptr); return true; // a trailing '?' (truncated) is ignored by strtod
  }
  uint64_t v = 0;
  if (e->s == S::BV && e->w > 64) {
    Z3_ast h = Z3_simplify(ctx, Z3_mk_extract(ctx, e->w - 1, 64, r)), l = Z3_simplify(ctx, Z3_mk_extract(ctx, 63, 0, r));
    uint64_t hv; if (!Z3_get_numeral_uint64(ctx, h, &hv) || !Z3_get_numeral_uint64(ctx, l, &v)) return false;
    c = ((u128)hv << 64) | v; return true;
  }
  r = Z3_simplify(ctx, r);
  if (Z3_get_ast_kind(ctx, r) != Z3_NUMERAL_AST) return false;
  if (!Z3_get_numeral_uint64(ctx, r, &v)) return false;
  if (e->s == S::FP) memcpy(&d, &v, 8); else c = v;
  return true;
}
bool Solver::eval(Model& m, Expr* e, u128& c, double& d) {
  if (e->isConst()) { c = e->c; d = e->d; return true; }
  auto& vs = varsOf(e);
  for (auto& p : m.parts) for (uint32_t x : vs) if (std::binary_search(p.first.begin(), p.first.end(), x)) return evalIn(p.second, e, c, d);
  // unconstrained: evaluate in an empty model
  Z3_model zm = nullptr; std::vector<Expr*> cs{mkEq(e, e)};
  std::vector<Expr*> none{e->s == S::Bool ? mkOr(e, mkBool(true)) : mkBool(true)};
  Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s);
  std::vector<Z3_ast> sd; sides({e}, sd); for (Z3_ast a : sd) Z3_solver_assert(ctx, s, a);
  bool ok = false;
  if (Z3_solver_check(ctx, s) == Z3_L_TRUE) { zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm); ok = evalIn(zm, e, c, d); Z3_model_dec_ref(ctx, zm); }
  Z3_solver_dec_ref(ctx, s);
  return ok;
}
