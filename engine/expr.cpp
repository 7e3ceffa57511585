#include "expr.h"
#include <algorithm>
#include <map>
#include <sstream>
#include <cassert>
#include <cstdio>
#include <cstdlib>

bool g_realMode = false;
bool g_roundModel = false;
std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, uint32_t> g_varIdx;
static std::vector<Expr*> g_varExpr;

// ---- arena + hash consing
static std::vector<Expr*> table(1 << 16, nullptr);
static size_t count = 0;
static char* arena = nullptr; static size_t arenaLeft = 0;
static void* alloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (n > arenaLeft) { arenaLeft = std::max<size_t>(1 << 20, n); arena = (char*)malloc(arenaLeft); }
  void* p = arena; arena += n; arenaLeft -= n; return p;
}
size_t numExprs() { return count; }
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

static Expr* intern(K k, S s, unsigned w, Expr* const* args, unsigned n, u128 c, double d, uint32_t var) {
  uint64_t db; memcpy(&db, &d, 8);
  uint64_t h = mix(mix((uint64_t)k * 131 + (uint64_t)s, w), (uint64_t)c);
  h = mix(h, (uint64_t)(c >> 64)); h = mix(h, db); h = mix(h, var);
  for (unsigned i = 0; i < n; i++) h = mix(h, args[i]->id + 1);
  size_t m = table.size() - 1, i = h & m;
  while (Expr* e = table[i]) {
    if (e->hash == h && e->k == k && e->s == s && e->w == w && e->n == n && e->c == c && memcmp(&e->d, &d, 8) == 0 && e->var == var) {
      bool same = true;
      for (unsigned j = 0; j < n && same; j++) same = e->a[j] == args[j];
      if (same) return e;
    }
    i = (i + 1) & m;
  }
  Expr* e = (Expr*)alloc(sizeof(Expr));
  e->k = k; e->s = s; e->w = w; e->id = count++; e->n = n; e->c = c; e->d = d; e->var = var; e->hash = h; e->z = nullptr; e->vars = nullptr;
  e->lo = -INFINITY; e->hi = INFINITY; e->err = 0;
  e->a = n ? (Expr**)alloc(sizeof(Expr*) * n) : nullptr;
  for (unsigned j = 0; j < n; j++) e->a[j] = args[j];
  table[i] = e;
  if (count * 2 > table.size()) {
    std::vector<Expr*> nt(table.size() * 2, nullptr);
    for (Expr* x : table) if (x) { size_t p = x->hash & (nt.size() - 1); while (nt[p]) p = (p + 1) & (nt.size() - 1); nt[p] = x; }
    table.swap(nt);
  }
  return e;
}
static inline Expr* mk(K k, S s, unsigned w, std::initializer_list<Expr*> as, u128 c = 0) { return intern(k, s, w, as.begin(), as.size(), c, 0, 0); }

Expr* mkConst(u128 v, unsigned w) { return intern(K::Const, S::BV, w, nullptr, 0, v & maskW(w), 0, 0); }
Expr* mkBool(bool b) { return intern(K::Const, S::Bool, 1, nullptr, 0, b ? 1 : 0, 0, 0); }
Expr* mkFP(double d) {
  Expr* e = intern(K::Const, g_realMode ? S::Real : S::FP, 64, nullptr, 0, 0, d, 0);
  e->lo = e->hi = d; return e;
}
Expr* mkVar(const std::string& name, S s, unsigned w, double lo, double hi) {
  char sfx[80]; snprintf(sfx, sizeof sfx, "|%d|%u|%a|%a", (int)s, w, lo, hi); // same name, other sort or range: another variable
  std::string vkey = name + sfx;
  auto it = g_varIdx.find(vkey);
  uint32_t v;
  if (it == g_varIdx.end()) {
    v = g_vars.size(); g_varIdx[vkey] = v; g_vars.push_back({name, s, w, false, 0, lo, hi});
  } else v = it->second;
  Expr* e = intern(K::Var, s, w, nullptr, 0, 0, 0, v);
  e->lo = lo; e->hi = hi;
  return e;
}
Expr* mkUF(const std::string& name, const std::vector<Expr*>& args, S s, unsigned w, double lo, double hi) {
  auto it = g_varIdx.find("uf:" + name);
  uint32_t v;
  if (it == g_varIdx.end()) {
    v = g_vars.size(); g_varIdx["uf:" + name] = v; g_vars.push_back({name, s, w, true, (unsigned)args.size(), lo, hi});
  } else v = it->second;
  Expr* e = intern(K::UF, s, w, args.data(), args.size(), 0, 0, v);
  if (e->lo == -INFINITY) { e->lo = lo; e->hi = hi; }
  return e;
}
const std::vector<uint32_t>& varsOf(Expr* e) {
  if (e->vars) return *e->vars;
  // iterative post-order to survive deep DAGs
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < x->n; i++) if (!x->a[i]->vars) { st.push_back(x->a[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    if (x->n == 1 && x->k != K::UF) { x->vars = x->a[0]->vars; continue; }
    auto* r = new std::vector<uint32_t>;
    if (x->k == K::Var || x->k == K::UF) r->push_back(x->var);
    for (unsigned i = 0; i < x->n; i++) r->insert(r->end(), x->a[i]->vars->begin(), x->a[i]->vars->end());
    std::sort(r->begin(), r->end()); r->erase(std::unique(r->begin(), r->end()), r->end());
    bool shared = false;
    for (unsigned i = 0; i < x->n && !shared; i++) if (*x->a[i]->vars == *r) { delete r; x->vars = x->a[i]->vars; shared = true; }
    if (!shared) x->vars = r;
  }
  return *e->vars;
}

// ---- smart constructors
Expr* mkNot(Expr* a) {
  if (a->isConst()) return mkBool(!a->c);
  if (a->k == K::Not) return a->a[0];
  if (a->k == K::Ult) return mkBin(K::Ule, a->a[1], a->a[0]);
  if (a->k == K::Ule) return mkBin(K::Ult, a->a[1], a->a[0]);
  if (a->k == K::Slt) return mkBin(K::Sle, a->a[1], a->a[0]);
  if (a->k == K::Sle) return mkBin(K::Slt, a->a[1], a->a[0]);
  return mk(K::Not, S::Bool, 1, {a});
}
Expr* mkAnd(Expr* a, Expr* b) {
  if (a->isConst()) return a->c ? b : a;
  if (b->isConst()) return b->c ? a : b;
  if (a == b) return a;
  if (mkNot(a) == b) return mkBool(false);
  if (a->id > b->id) std::swap(a, b);
  return mk(K::BAnd, S::Bool, 1, {a, b});
}
Expr* mkOr(Expr* a, Expr* b) {
  if (a->isConst()) return a->c ? a : b;
  if (b->isConst()) return b->c ? b : a;
  if (a == b) return a;
  if (mkNot(a) == b) return mkBool(true);
  if (a->id > b->id) std::swap(a, b);
  return mk(K::BOr, S::Bool, 1, {a, b});
}
static Expr* fpEqStruct(Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b) {
  assert(a->s == b->s && a->w == b->w);
  if (a == b) return mkBool(true);
  if (a->isConst() && b->isConst() && a->s != S::Real && a->s != S::FP) return mkBool(a->c == b->c);
  if (a->isConst()) std::swap(a, b);
  if (a->s == S::Bool) {
    if (b->isConst()) return b->c ? a : mkNot(a);
    if (mkNot(a) == b) return mkBool(false);
  }
  if (a->s == S::BV && b->isConst()) {
    if (a->k == K::Ite) {
      Expr* t = a->a[1]; Expr* f = a->a[2];
      if (t->isConst() || f->isConst()) {
        Expr* et = mkEq(t, b); Expr* ef = mkEq(f, b);
        if (et->isConst() || ef->isConst()) return mkIte(a->a[0], et, ef);
      }
    }
    if (a->k == K::ZExt) {
      if (b->c >> a->a[0]->w) return mkBool(false);
      return mkEq(a->a[0], mkConst(b->c, a->a[0]->w));
    }
    if (a->k == K::SExt) {
      u128 t = b->c & maskW(a->a[0]->w);
      if (((u128)sextW(t, a->a[0]->w) & maskW(a->w)) != b->c) return mkBool(false);
      return mkEq(a->a[0], mkConst(t, a->a[0]->w));
    }
    if (a->k == K::Add && a->a[1]->isConst()) return mkEq(a->a[0], mkConst(b->c - a->a[1]->c, a->w));
    if (a->k == K::Xor && a->a[1]->isConst()) return mkEq(a->a[0], mkConst(b->c ^ a->a[1]->c, a->w));
    if (a->k == K::Concat) {
      unsigned lw = a->a[1]->w;
      return mkAnd(mkEq(a->a[0], mkConst(b->c >> lw, a->a[0]->w)), mkEq(a->a[1], mkConst(b->c, lw)));
    }
    // (x & m) == m' with constants: impossible bits
    if (a->k == K::And && a->a[1]->isConst() && (b->c & ~a->a[1]->c)) return mkBool(false);
    if (a->k == K::Or && a->a[1]->isConst() && (a->a[1]->c & ~b->c)) return mkBool(false);
  }
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return mk(K::Eq, S::Bool, 1, {a, b});
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  assert(a->s == b->s && a->w == b->w);
  if (c->k == K::Not) { c = c->a[0]; std::swap(a, b); }
  if (a->s == S::Bool) {
    if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
    if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->k == K::Ite && a->a[0] == c) a = a->a[1];
  if (b->k == K::Ite && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  Expr* e = mk(K::Ite, a->s, a->w, {c, a, b});
  if (a->s == S::Real) { e->lo = std::min(a->lo, b->lo); e->hi = std::max(a->hi, b->hi); e->err = std::max(a->err, b->err); }
  return e;
}
Expr* boolToBV(Expr* b, unsigned w) {
  if (b->isConst()) return mkConst(b->c, w);
  return mkIte(b, mkConst(1, w), mkConst(0, w));
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->c >> lo, w);
  switch (a->k) {
    case K::Extract: return mkExtract(a->a[0], (unsigned)a->c + lo, w);
    case K::Concat: {
      unsigned lw = a->a[1]->w;
      if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
      if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
      return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo));
    }
    case K::ZExt: {
      unsigned iw = a->a[0]->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
      return mkZExt(mkExtract(a->a[0], lo, iw - lo), w);
    }
    case K::SExt: {
      unsigned iw = a->a[0]->w;
      if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
      if (lo == 0 && w > iw) return mkSExt(a->a[0], w);
      break;
    }
    case K::Ite:
      if (a->a[1]->isConst() || a->a[2]->isConst()) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
      break;
    case K::And: case K::Or: case K::Xor:
      return mkBin(a->k, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
    case K::Add: case K::Sub: case K::Mul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
      break;
    case K::Shl:
      if (a->a[1]->isConst()) {
        unsigned sh = (unsigned)a->a[1]->c;
        if (sh >= a->w) return mkConst(0, w);
        if (lo >= sh) return mkExtract(a->a[0], lo - sh, w);
        if (lo + w <= sh) return mkConst(0, w);
      }
      break;
    case K::LShr:
      if (a->a[1]->isConst()) {
        unsigned sh = (unsigned)std::min<u128>(a->a[1]->c, a->w);
        if (lo + sh >= a->w) return mkConst(0, w);
        if (lo + sh + w <= a->w) return mkExtract(a->a[0], lo + sh, w);
      }
      break;
    default: break;
  }
  return mk(K::Extract, S::BV, w, {a}, lo);
}
Expr* mkConcat(Expr* h, Expr* l) {
  if (h->isConst() && l->isConst()) return mkConst((h->c << l->w) | l->c, h->w + l->w);
  if (h->k == K::Extract && l->k == K::Extract && h->a[0] == l->a[0] && h->c == l->c + l->w) return mkExtract(h->a[0], (unsigned)l->c, h->w + l->w);
  if (h->isConst() && h->c == 0) return mkZExt(l, h->w + l->w);
  if (l->k == K::Concat) { // keep right-nested merges possible
    Expr* m = l->a[0];
    if (h->k == K::Extract && m->k == K::Extract && h->a[0] == m->a[0] && h->c == m->c + m->w)
      return mkConcat(mkExtract(h->a[0], (unsigned)m->c, h->w + m->w), l->a[1]);
  }
  return mk(K::Concat, S::BV, h->w + l->w, {h, l});
}
Expr* mkZExt(Expr* a, unsigned w) {
  if (a->s == S::Bool) return boolToBV(a, w);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c, w);
  if (a->k == K::ZExt) return mkZExt(a->a[0], w);
  if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  return mk(K::ZExt, S::BV, w, {a});
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (a->s == S::Bool) return a->isConst() ? mkConst(a->c ? ~(u128)0 : 0, w) : mkIte(a, mkConst(~(u128)0, w), mkConst(0, w));
  if (w == a->w) return a;
  if (a->isConst()) return mkConst((u128)sextW(a->c, a->w), w);
  if (a->k == K::ZExt) return mkZExt(a->a[0], w);
  if (a->k == K::SExt) return mkSExt(a->a[0], w);
  if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return mk(K::SExt, S::BV, w, {a});
}

// ---- rounding/interval helpers (Real)
static const double U = 1.1102230246251565e-16; // 2^-53
static double up(double x) { return std::nextafter(x, INFINITY); }
static double dn(double x) { return std::nextafter(x, -INFINITY); }
static double mag(Expr* e) { return std::max(std::fabs(e->lo), std::fabs(e->hi)); }
static double ulpErr(double lo, double hi, double e) {
  if (!g_roundModel) return 0;
  double m = std::max(std::fabs(lo), std::fabs(hi)) + e;
  return up(up(m * U) + 5e-324);
}
static void attr(Expr* e) {
  if (e->s != S::Real) return;
  Expr* a = e->n > 0 ? e->a[0] : nullptr; Expr* b = e->n > 1 ? e->a[1] : nullptr;
  switch (e->k) {
    case K::FAdd: e->lo = dn(a->lo + b->lo); e->hi = up(a->hi + b->hi); e->err = up(a->err + b->err); break;
    case K::FSub: e->lo = dn(a->lo - b->hi); e->hi = up(a->hi - b->lo); e->err = up(a->err + b->err); break;
    case K::FNeg: e->lo = -a->hi; e->hi = -a->lo; e->err = a->err; return;
    case K::FAbs: e->lo = a->lo > 0 ? a->lo : a->hi < 0 ? -a->hi : 0; e->hi = mag(a); e->err = a->err; return;
    case K::FMul: {
      double p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
      for (double& x : p) if (std::isnan(x)) x = 0; // 0*inf: handled conservatively below
      if ((std::isinf(a->lo) || std::isinf(a->hi) || std::isinf(b->lo) || std::isinf(b->hi))) { e->lo = -INFINITY; e->hi = INFINITY; }
      else { e->lo = dn(*std::min_element(p, p + 4)); e->hi = up(*std::max_element(p, p + 4)); }
      if (a == b && e->lo < 0) e->lo = 0;
      double t1 = a->err ? a->err * (mag(b) + b->err) : 0, t2 = b->err ? b->err * (mag(a) + a->err) : 0;
      e->err = up(up(t1) + up(t2));
      // multiplication by an exact power of two is exact
      for (Expr* q : {a, b}) if (q->isConst() && q->d != 0) { int ex; double m = std::frexp(std::fabs(q->d), &ex); if (m == 0.5 && std::isfinite(e->lo)) return; }
      break;
    }
    case K::FDiv:
      if (b->lo > 0 || b->hi < 0) {
        double p[4] = {a->lo / b->lo, a->lo / b->hi, a->hi / b->lo, a->hi / b->hi};
        bool bad = false; for (double x : p) if (std::isnan(x)) bad = true;
        if (!bad) { e->lo = dn(*std::min_element(p, p + 4)); e->hi = up(*std::max_element(p, p + 4)); }
        double bm = std::min(std::fabs(b->lo), std::fabs(b->hi)) - b->err;
        if (bm > 0 && std::isfinite(mag(a))) { double t = a->err / bm; double t2 = b->err ? (mag(a) + a->err) * b->err / (bm * bm) : 0; e->err = up(up(t) + up(t2)); }
        else e->err = (a->err || b->err || true) ? INFINITY : 0;
      } else e->err = INFINITY;
      break;
    default: return;
  }
  if (e->err < INFINITY) e->err = up(e->err + ulpErr(e->lo, e->hi, e->err));
  if (!g_roundModel) e->err = 0;
  if (std::isnan(e->err)) e->err = INFINITY;
}
static Expr* errWrap(Expr* e) {
  // machine value of a Real expression: ideal + bounded error (same unknown for the same expression)
  if (!g_roundModel || e->err == 0 || e->isConst()) return e;
  return mk(K::FErr, S::Real, 64, {e});
}

static bool isFPConst(Expr* e) { return e->isConst() && (e->s == S::FP || e->s == S::Real); }

Expr* mkUn(K k, Expr* a) {
  if (k == K::Not) return mkNot(a);
  if (isFPConst(a)) {
    double x = a->d;
    switch (k) {
      case K::FNeg: return mkFP(-x);
      case K::FAbs: return mkFP(std::fabs(x));
      case K::FSqrt: return mkFP(std::sqrt(x));
      case K::FFloor: return mkFP(std::floor(x));
      case K::FCeil: return mkFP(std::ceil(x));
      case K::FTrunc: return mkFP(std::trunc(x));
      case K::FRoundEven: return mkFP(std::nearbyint(x));
      case K::FRoundAway: return mkFP(std::round(x));
      case K::FIsNan: return mkBool(std::isnan(x));
      case K::FIsInf: return mkBool(std::isinf(x));
      default: break;
    }
  }
  switch (k) {
    case K::FNeg:
      if (a->k == K::FNeg) return a->a[0];
      break;
    case K::FAbs:
      if (a->k == K::FAbs) return a;
      if (a->k == K::FNeg) return mkUn(K::FAbs, a->a[0]);
      if (a->k == K::FSub && a->a[0]->id > a->a[1]->id) return mkUn(K::FAbs, mkBin(K::FSub, a->a[1], a->a[0]));
      break;
    case K::FIsNan: case K::FIsInf:
      if (a->s == S::Real) return mkBool(false);
      return mk(k, S::Bool, 1, {a});
    default: break;
  }
  Expr* e = mk(k, a->s, a->w, {k == K::FFloor || k == K::FCeil || k == K::FTrunc || k == K::FRoundEven || k == K::FRoundAway ? errWrap(a) : a});
  attr(e);
  if (a->s == S::Real && (k == K::FFloor || k == K::FCeil || k == K::FTrunc || k == K::FRoundAway || k == K::FRoundEven)) { e->lo = std::floor(a->lo - a->err); e->hi = std::ceil(a->hi + a->err); e->err = 0; }
  if (a->s == S::Real && k == K::FSqrt) { e->lo = a->lo > 0 ? dn(std::sqrt(a->lo)) : 0; e->hi = a->hi >= 0 ? up(std::sqrt(a->hi)) : INFINITY; e->err = g_roundModel ? (a->err == 0 ? up(e->hi * U) : (a->lo > a->err ? up(a->err / (2 * std::sqrt(a->lo - a->err)) + e->hi * U) : up(std::sqrt(a->err) + e->hi * U))) : 0; }
  return e;
}

// Comparisons of real polynomials of degree two that are really linear, or compare a square with a constant, become linear.
// Every coefficient is computed exactly; otherwise the comparison stays as it is.
namespace { struct Poly { bool ok = true; std::map<std::pair<Expr*, Expr*>, double> c; }; } // (null,null): constant, (null,x): linear, x<=y by id: quadratic
static bool exAdd(double a, double b, double& r) { r = a + b; double bb = r - a; return std::isfinite(r) && (a - (r - bb)) + (b - bb) == 0; }
static bool exMul(double a, double b, double& r) { r = a * b; return std::isfinite(r) && std::fma(a, b, -r) == 0 && !(r == 0 && a != 0 && b != 0) && (r == 0 || std::fabs(r) > 1e-200); }
static std::pair<Expr*, Expr*> mono(Expr* x, Expr* y) { if (!x) return {nullptr, y}; if (!y) return {nullptr, x}; return x->id <= y->id ? std::make_pair(x, y) : std::make_pair(y, x); }
static Poly polyOf(Expr* e, int depth = 0) {
  Poly r; if (depth > 200) { r.ok = false; return r; }
  if (e->isConst()) { if (!std::isfinite(e->d)) r.ok = false; else if (e->d != 0) r.c[{nullptr, nullptr}] = e->d; return r; }
  if (e->k == K::FNeg) { r = polyOf(e->a[0], depth + 1); for (auto& t : r.c) t.second = -t.second; return r; }
  if (e->k == K::FAdd || e->k == K::FSub) {
    r = polyOf(e->a[0], depth + 1); if (!r.ok) return r; Poly q = polyOf(e->a[1], depth + 1); if (!q.ok) return q;
    for (auto& t : q.c) { double& v = r.c[t.first]; double n; if (!exAdd(v, e->k == K::FAdd ? t.second : -t.second, n)) r.ok = false; v = n; if (n == 0) r.c.erase(t.first); }
    if (r.c.size() > 60) r.ok = false; return r;
  }
  if (e->k == K::FMul) {
    Poly p = polyOf(e->a[0], depth + 1); if (!p.ok) return p; Poly q = polyOf(e->a[1], depth + 1); if (!q.ok) return q;
    for (auto& t : p.c) for (auto& u : q.c) {
      int dt = (t.first.first != nullptr) + (t.first.second != nullptr), du = (u.first.first != nullptr) + (u.first.second != nullptr); if (dt + du > 2) { r.ok = false; return r; }
      auto m = dt == 2 ? t.first : du == 2 ? u.first : mono(t.first.second, u.first.second);
      double v, n; if (!exMul(t.second, u.second, v)) { r.ok = false; return r; }
      double& w = r.c[m]; if (!exAdd(w, v, n)) { r.ok = false; return r; } w = n; if (n == 0) r.c.erase(m);
    }
    if (r.c.size() > 60) r.ok = false; return r;
  }
  if (e->k == K::FDiv || e->k == K::FErr) { r.ok = false; return r; }
  r.c[{nullptr, e}] = 1; return r;
}
static bool hasMul(Expr* e) {
  static std::unordered_map<uint32_t, bool> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->k == K::FMul && !e->a[0]->isConst() && !e->a[1]->isConst();
  if (!r && (e->k == K::FAdd || e->k == K::FSub || e->k == K::FMul || e->k == K::FNeg)) for (unsigned i = 0; i < e->n && !r; i++) r = hasMul(e->a[i]);
  return memo[e->id] = r;
}
static Expr* fpBin(K k, Expr* a, Expr* b);
static Expr* linearised(K k, Expr* a, Expr* b) { // a < b, a <= b, a == b; null: no simpler form
  if (!hasMul(a) && !hasMul(b)) return nullptr;
  Poly p = polyOf(a); if (!p.ok) return nullptr; Poly q = polyOf(b); if (!q.ok) return nullptr;
  for (auto& t : q.c) { double& v = p.c[t.first]; double n; if (!exAdd(v, -t.second, n)) return nullptr; v = n; if (n == 0) p.c.erase(t.first); }
  double c0 = 0; std::map<Expr*, double> lin; std::map<std::pair<Expr*, Expr*>, double> quad;
  for (auto& t : p.c) if (!t.first.second) c0 = t.second; else if (!t.first.first) lin[t.first.second] = t.second; else quad[t.first] = t.second;
  auto sum = [&](std::map<Expr*, double>& l) { Expr* r = nullptr; std::vector<Expr*> ks; for (auto& t : l) ks.push_back(t.first); std::sort(ks.begin(), ks.end(), [](Expr* x, Expr* y) { return x->id < y->id; }); for (Expr* x : ks) { Expr* y = fpBin(K::FMul, mkFP(l[x]), x); r = r ? fpBin(K::FAdd, r, y) : y; } return r; };
  if (quad.empty()) { if (lin.empty()) return mkBool(k == K::FLt ? c0 < 0 : k == K::FLe ? c0 <= 0 : c0 == 0); return fpBin(k, sum(lin), mkFP(-c0)); }
  Expr* x0 = nullptr; for (auto& t : quad) if (t.first.first == t.first.second && (!x0 || t.first.first->id < x0->id)) x0 = t.first.first;
  if (!x0) return nullptr;
  double kk = quad[{x0, x0}]; std::map<Expr*, double> L; L[x0] = 1;
  auto exDiv = [](double x, double y, double& r) { r = x / y; return std::isfinite(r) && std::fma(r, y, -x) == 0; };
  for (auto& t : quad) if (t.first.first != t.first.second && (t.first.first == x0 || t.first.second == x0)) { double r; if (!exDiv(t.second, 2 * kk, r)) return nullptr; L[t.first.first == x0 ? t.first.second : t.first.first] = r; }
  for (auto& t : L) for (auto& u : L) if (t.first->id <= u.first->id) { // k L^2 must be the quadratic part
    double v, w; if (!exMul(t.second, u.second, v) || !exMul(v, t.first == u.first ? kk : 2 * kk, w)) return nullptr;
    auto it = quad.find({t.first, u.first}); if (it == quad.end() || it->second != w) return nullptr; quad.erase(it);
  }
  if (!quad.empty()) return nullptr;
  double m = 0, mm, c1, t, root; auto li = lin.find(x0); if (li != lin.end() && !exDiv(li->second, 2 * kk, m)) return nullptr;
  for (auto& u : L) { double v, w; if (!exMul(u.second, m, v) || !exMul(v, 2 * kk, w)) return nullptr; auto it = lin.find(u.first); if ((it == lin.end() ? 0 : it->second) != w) return nullptr; if (it != lin.end()) lin.erase(it); }
  if (!lin.empty()) return nullptr;
  if (!exMul(m, m, mm) || !exMul(mm, kk, c1) || !exAdd(c0, -c1, c1) || !exDiv(-c1, kk, t)) return nullptr; // k (L+m)^2 + c1, t = -c1/k
  bool lt = k == K::FLt;
  if (t < 0) return mkBool(k == K::FEq ? false : kk < 0);
  root = std::sqrt(t); if (root * root != t || std::fma(root, root, -t) != 0) return nullptr;
  Expr* l = sum(L); if (m != 0) l = fpBin(K::FAdd, l, mkFP(m));
  Expr *R = mkFP(root), *N = mkFP(-root);
  if (k == K::FEq) return mkOr(fpBin(K::FEq, l, R), fpBin(K::FEq, l, N));
  if (kk > 0) { K c = lt ? K::FLt : K::FLe; return mkAnd(fpBin(c, l, R), fpBin(c, N, l)); }
  K c = lt ? K::FLt : K::FLe; return mkOr(fpBin(c, R, l), fpBin(c, l, N));
}
static Expr* fpBin(K k, Expr* a, Expr* b) {
  S s = a->s;
  bool ca = a->isConst(), cb = b->isConst();
  if (ca && cb) {
    double x = a->d, y = b->d;
    switch (k) {
      case K::FAdd: return mkFP(x + y); case K::FSub: return mkFP(x - y);
      case K::FMul: return mkFP(x * y); case K::FDiv: return mkFP(x / y);
      case K::FLt: return mkBool(x < y); case K::FLe: return mkBool(x <= y); case K::FEq: return mkBool(x == y);
      default: break;
    }
  }
  bool cmp = k == K::FLt || k == K::FLe || k == K::FEq;
  // non-finite constants in Real mode behave as in IEEE against a finite unknown
  if (s == S::Real) {
    for (int i = 0; i < 2; i++) {
      Expr* c = i ? b : a; Expr* o = i ? a : b;
      if (!c->isConst() || std::isfinite(c->d)) continue;
      if (cmp) {
        if (std::isnan(c->d) || k == K::FEq) return mkBool(false);
        bool r = i ? (c->d > 0) : (c->d < 0); // a < inf  / -inf < b
        return mkBool(r);
      }
      if (std::isnan(c->d)) return mkFP(NAN);
      if (k == K::FAdd) return c;
      if (k == K::FSub) return i ? mkFP(-c->d) : c;
      if (k == K::FMul || (k == K::FDiv && !i)) {
        double inf = c->d;
        Expr* z = mkFP(0.0);
        Expr* pos = mkBin(K::FLt, z, o); Expr* zero = mkBin(K::FEq, o, z);
        if (k == K::FDiv) zero = mkBool(false);
        return mkIte(zero, mkFP(NAN), mkIte(pos, mkFP(inf), mkFP(-inf)));
      }
      if (k == K::FDiv && i) return mkFP(0.0);
    }
    if (ca || cb) {
      if (k == K::FAdd) { if (ca && a->d == 0) return b; if (cb && b->d == 0) return a; }
      if (k == K::FSub) { if (cb && b->d == 0) return a; if (ca && a->d == 0) return mkUn(K::FNeg, b); }
      if (k == K::FMul) {
        if ((ca && a->d == 0) || (cb && b->d == 0)) return mkFP(0.0);
        if (ca && a->d == 1) return b; if (cb && b->d == 1) return a;
        if (ca && a->d == -1) return mkUn(K::FNeg, b); if (cb && b->d == -1) return mkUn(K::FNeg, a);
      }
      if (k == K::FDiv) { if (cb && b->d == 1) return a; if (cb && b->d == -1) return mkUn(K::FNeg, a); if (ca && a->d == 0 && !g_roundModel) { } }
      // x / c with c a power of two -> exact multiply
      if (k == K::FDiv && cb && b->d != 0) { int ex; double m = std::frexp(std::fabs(b->d), &ex); if (m == 0.5) return fpBin(K::FMul, a, mkFP(1.0 / b->d)); }
    }
    if (a == b) {
      if (k == K::FSub) return mkFP(0.0);
      if (k == K::FLe || k == K::FEq) return mkBool(true);
      if (k == K::FLt) return mkBool(false);
    }
    if (cmp) {
      double ea = a->err, eb = b->err;
      if (std::isfinite(ea) && std::isfinite(eb)) {
        if (a->hi + ea < b->lo - eb) { if (k == K::FLt || k == K::FLe) return mkBool(true); return mkBool(false); }
        if (a->lo - ea > b->hi + eb) return mkBool(false);
        if (k == K::FLe && !g_roundModel && a->hi <= b->lo) return mkBool(true);
        if (k == K::FLt && !g_roundModel && a->lo >= b->hi) return mkBool(false);
      }
      if (!g_roundModel && k != K::FEq && a->k == K::FSqrt && cb) { // sqrt(x) < c as x < c*c
        if (b->d < 0 || (b->d == 0 && k == K::FLt)) return mkBool(false);
        double q = b->d * b->d; if (std::fma(b->d, b->d, -q) == 0) return fpBin(k, a->a[0], mkFP(q));
      }
      if (!g_roundModel && k != K::FEq && b->k == K::FSqrt && ca) {
        if (a->d < 0 || (a->d == 0 && k == K::FLe)) return mkBool(true);
        double q = a->d * a->d; if (std::fma(a->d, a->d, -q) == 0) return fpBin(k, mkFP(q), b->a[0]);
      }
      if (!g_roundModel) if (Expr* l = linearised(k, a, b)) return l;
      a = errWrap(a); b = errWrap(b);
      if (k == K::FEq && a->id > b->id) std::swap(a, b);
      return mk(k, S::Bool, 1, {a, b});
    }
  } else {
    if (k == K::FEq && a == b) return mkNot(mkUn(K::FIsNan, a));
    if (k == K::FLt && a == b) return mkBool(false);
    if (cmp) {
      if ((ca && std::isnan(a->d)) || (cb && std::isnan(b->d))) return mkBool(false);
      if (k == K::FEq && a->id > b->id) std::swap(a, b);
      return mk(k, S::Bool, 1, {a, b});
    }
    if (k == K::FMul) { if (ca && a->d == 1) return b; if (cb && b->d == 1) return a; }
    if (k == K::FDiv) { if (cb && b->d == 1) return a; }
    // x*c, c=2^k for a normalised division by a power of two (exact unless under/overflow: keep as is)
  }
  if ((k == K::FAdd || k == K::FMul) && a->id > b->id) std::swap(a, b);
  Expr* e = mk(k, s, 64, {a, b});
  attr(e);
  return e;
}

Expr* mkBin(K k, Expr* a, Expr* b) {
  switch (k) {
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FLt: case K::FLe: case K::FEq: return fpBin(k, a, b);
    case K::Eq: return mkEq(a, b);
    case K::BAnd: return mkAnd(a, b);
    case K::BOr: return mkOr(a, b);
    default: break;
  }
  // booleans in bit operations
  if (a->s == S::Bool) {
    switch (k) {
      case K::And: case K::Mul: return mkAnd(a, b);
      case K::Or: return mkOr(a, b);
      case K::Xor: case K::Add: case K::Sub: return mkNot(mkEq(a, b));
      case K::Ult: return mkAnd(mkNot(a), b);
      case K::Ule: return mkOr(mkNot(a), b);
      case K::Slt: return mkAnd(a, mkNot(b));
      case K::Sle: return mkOr(a, mkNot(b));
      default: fprintf(stderr, "bool op %d\n", (int)k); abort();
    }
  }
  unsigned w = a->w;
  assert(a->s == S::BV && b->s == S::BV && a->w == b->w);
  if (a->isConst() && b->isConst()) {
    u128 x = a->c, y = b->c; i128 sx = sextW(x, w), sy = sextW(y, w);
    switch (k) {
      case K::Add: return mkConst(x + y, w); case K::Sub: return mkConst(x - y, w); case K::Mul: return mkConst(x * y, w);
      case K::UDiv: if (y) return mkConst(x / y, w); break;
      case K::URem: if (y) return mkConst(x % y, w); break;
      case K::SDiv: if (sy) return mkConst(sy == -1 ? (u128)(-sx) : (u128)(sx / sy), w); break;
      case K::SRem: if (sy) return mkConst(sy == -1 ? 0 : (u128)(sx % sy), w); break;
      case K::And: return mkConst(x & y, w); case K::Or: return mkConst(x | y, w); case K::Xor: return mkConst(x ^ y, w);
      case K::Shl: return mkConst(y >= w ? 0 : x << (unsigned)y, w);
      case K::LShr: return mkConst(y >= w ? 0 : x >> (unsigned)y, w);
      case K::AShr: return mkConst(y >= w ? (sx < 0 ? ~(u128)0 : 0) : (u128)(sx >> (unsigned)y), w);
      case K::Ult: return mkBool(x < y); case K::Ule: return mkBool(x <= y);
      case K::Slt: return mkBool(sx < sy); case K::Sle: return mkBool(sx <= sy);
      default: break;
    }
  }
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  if (k == K::Sub && b->isConst()) return mkBin(K::Add, a, mkConst(-b->c, w));
  switch (k) {
    case K::Add:
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (a->k == K::Add && a->a[1]->isConst()) return mkBin(K::Add, a->a[0], mkConst(a->a[1]->c + b->c, w));
        if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
      }
      break;
    case K::Sub:
      if (a == b) return mkConst(0, w);
      if (a->k == K::Add && a->a[1]->isConst() && a->a[0] == b) return a->a[1];
      if (a->k == K::Add && a->a[1]->isConst()) return mkBin(K::Add, mkBin(K::Sub, a->a[0], b), a->a[1]);
      break;
    case K::Mul:
      if (b->isConst()) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        for (unsigned i = 1; i < w; i++) if (b->c == ((u128)1 << i)) return mkBin(K::Shl, a, mkConst(i, w));
        if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
      }
      break;
    case K::UDiv: case K::SDiv:
      if (b->isConst() && b->c == 1) return a;
      if (k == K::UDiv && b->isConst()) for (unsigned i = 1; i < w; i++) if (b->c == ((u128)1 << i)) return mkBin(K::LShr, a, mkConst(i, w));
      break;
    case K::URem:
      if (b->isConst()) {
        if (b->c == 1) return mkConst(0, w);
        if (b->c && !(b->c & (b->c - 1))) return mkBin(K::And, a, mkConst(b->c - 1, w));
      }
      break;
    case K::And:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->c == 0) return b;
        if (b->c == maskW(w)) return a;
        if (a->k == K::And && a->a[1]->isConst()) return mkBin(K::And, a->a[0], mkConst(a->a[1]->c & b->c, w));
        if (a->k == K::Or && a->a[1]->isConst()) {
          u128 m = b->c, o = a->a[1]->c;
          if ((o & m) == 0) return mkBin(K::And, a->a[0], b);
          if ((o & m) == m) return b;
          return mkBin(K::Or, mkBin(K::And, a->a[0], mkConst(m & ~o, w)), mkConst(o & m, w));
        }
        if (a->k == K::Or) { // distribute: lets masked bits be resolved
          return mkBin(K::Or, mkBin(K::And, a->a[0], b), mkBin(K::And, a->a[1], b));
        }
        if (a->k == K::Ite && (a->a[1]->isConst() || a->a[2]->isConst())) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
        if (a->k == K::ZExt) {
          u128 im = maskW(a->a[0]->w);
          if ((b->c & im) == im) return a;
          if ((b->c & im) == 0) return mkConst(0, w);
        }
      }
      break;
    case K::Or:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (b->c == maskW(w)) return b;
        if (a->k == K::Or && a->a[1]->isConst()) return mkBin(K::Or, a->a[0], mkConst(a->a[1]->c | b->c, w));
        if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
      }
      break;
    case K::Xor:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (a->k == K::Xor && a->a[1]->isConst()) return mkBin(K::Xor, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
        if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
      }
      break;
    case K::Shl: case K::LShr: case K::AShr:
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (k != K::AShr && b->c >= w) return mkConst(0, w);
        if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
        if (k == K::LShr && a->k == K::ZExt && b->c >= a->a[0]->w) return mkConst(0, w);
      }
      if (a->isConst() && a->c == 0) return a;
      break;
    case K::Ult:
      if (a == b) return mkBool(false);
      if (b->isConst() && b->c == 0) return mkBool(false);
      if (b->isConst() && b->c == 1) return mkEq(a, mkConst(0, w));
      if (b->isConst() && a->k == K::ZExt && b->c > maskW(a->a[0]->w)) return mkBool(true);
      break;
    case K::Ule:
      if (a == b) return mkBool(true);
      if (a->isConst() && a->c == 0) return mkBool(true);
      if (b->isConst() && b->c == maskW(w)) return mkBool(true);
      break;
    case K::Slt: if (a == b) return mkBool(false); break;
    case K::Sle: if (a == b) return mkBool(true); break;
    default: break;
  }
  bool cmp = k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle;
  if (cmp) {
    for (int i = 0; i < 2; i++) {
      Expr* t = i ? b : a; Expr* o = i ? a : b;
      if (t->k == K::Ite && t->a[1]->isConst() && t->a[2]->isConst() && o->isConst())
        return i ? mkIte(t->a[0], mkBin(k, o, t->a[1]), mkBin(k, o, t->a[2])) : mkIte(t->a[0], mkBin(k, t->a[1], o), mkBin(k, t->a[2], o));
    }
    return mk(k, S::Bool, 1, {a, b});
  }
  return mk(k, S::BV, w, {a, b});
}

Expr* mkFToI(Expr* a, unsigned w, bool sgn) {
  if (a->k == K::FFromS && sgn && a->a[0]->w == w && (w <= 32 || a->s == S::Real)) return a->a[0];
  if (a->k == K::FFromS && sgn && a->a[0]->w < w && a->a[0]->w <= 32) return mkSExt(a->a[0], w);
  return mk(sgn ? K::FToS : K::FToU, S::BV, w, {errWrap(a)});
}
Expr* mkFFromI(Expr* a, bool sgn) {
  if (a->isConst()) return mkFP(sgn ? (double)(int64_t)sextW(a->c, a->w) : (double)(uint64_t)a->c);
  if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkFFromI(a->a[1], sgn), mkFFromI(a->a[2], sgn));
  Expr* e = mk(sgn ? K::FFromS : K::FFromU, g_realMode ? S::Real : S::FP, 64, {a});
  if (sgn) { e->lo = -std::ldexp(1.0, a->w - 1); e->hi = std::ldexp(1.0, a->w - 1); } else { e->lo = 0; e->hi = std::ldexp(1.0, a->w); }
  if (a->k == K::Var && !std::isinf(g_vars[a->var].lo)) { e->lo = g_vars[a->var].lo; e->hi = g_vars[a->var].hi; }
  { Expr* i = a; while (i->k == K::ZExt || i->k == K::SExt) i = i->a[0];
    if ((i->k == K::FToS || i->k == K::FToU) && i->a[0]->s == S::Real) { e->lo = std::max(e->lo, std::trunc(i->a[0]->lo - i->a[0]->err)); e->hi = std::min(e->hi, std::trunc(i->a[0]->hi + i->a[0]->err)); } }
  if (a->k == K::ZExt || a->k == K::SExt) {
    Expr* i = a->a[0];
    if (i->k == K::Var && !std::isinf(g_vars[i->var].lo) && g_vars[i->var].lo >= 0) { e->lo = g_vars[i->var].lo; e->hi = g_vars[i->var].hi; }
  }
  return e;
}
Expr* mkFFromBits(Expr* a) {
  if (a->isConst()) { double d; uint64_t u = (uint64_t)a->c; memcpy(&d, &u, 8); return mkFP(d); }
  if (a->k == K::FBits) return a->a[0];
  if (a->k == K::Ite) return mkIte(a->a[0], mkFFromBits(a->a[1]), mkFFromBits(a->a[2]));
  return mk(K::FFromBits, g_realMode ? S::Real : S::FP, 64, {a});
}
Expr* mkFBits(Expr* a) {
  if (a->isConst()) { uint64_t u; memcpy(&u, &a->d, 8); return mkConst(u, 64); }
  if (a->k == K::FFromBits) return a->a[0];
  return mk(K::FBits, S::BV, 64, {a});
}

static const char* kn[] = {"const", "var", "uf", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext",
  "eq", "ult", "ule", "slt", "sle", "not", "band", "bor", "ite", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fsqrt", "ffloor", "fceil", "ftrunc", "frne", "frna",
  "flt", "fle", "feq", "fisnan", "fisinf", "ffroms", "ffromu", "ftos", "ftou", "ffrombits", "fbits", "ferr"};
std::string toStr(Expr* e, int depth) {
  std::ostringstream o;
  if (e->k == K::Const) {
    if (e->s == S::FP || e->s == S::Real) { o.precision(17); o << e->d; }
    else o << (unsigned long long)e->c << ":" << e->w;
    return o.str();
  }
  if (e->k == K::Var) return g_vars[e->var].name;
  if (depth <= 0) return "..";
  o << "(" << (e->k == K::UF ? g_vars[e->var].name.c_str() : kn[(int)e->k]);
  if (e->k == K::Extract) o << "[" << (int)e->c << "+" << e->w << "]";
  for (unsigned i = 0; i < e->n; i++) o << " " << toStr(e->a[i], depth - 1);
  o << ")";
  return o.str();
}
