// Hash-consed symbolic expressions (bit-vectors, booleans, IEEE doubles, reals).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <cmath>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class S : uint8_t { Bool, BV, FP, Real };

enum class K : uint8_t {
  Const, Var, UF,
  // bit-vectors
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Concat, Extract, ZExt, SExt,
  // boolean
  Eq, Ult, Ule, Slt, Sle, Not, BAnd, BOr, Ite,
  // floating (sort FP: IEEE double, sort Real: ideal reals)
  FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FFloor, FCeil, FTrunc, FRoundEven, FRoundAway,
  FLt, FLe, FEq, FIsNan, FIsInf, FFromS, FFromU, FToS, FToU, FFromBits, FBits, FErr
};

struct Expr {
  K k; S s; uint16_t w;       // w: bit width for BV
  uint32_t id;
  uint32_t n;                 // number of args
  Expr** a;
  u128 c;                     // constant value / extract low bit / conversion width
  double d;                   // FP/Real constant
  uint32_t var;               // variable or UF symbol index
  uint64_t hash;
  Z3_ast z;
  std::vector<uint32_t>* vars; // sorted variable/UF symbol ids occurring
  // rounding model for Real: interval of the ideal value and bound on |machine - ideal|
  double lo, hi, err;
  bool isConst() const { return k == K::Const; }
};

struct VarInfo { std::string name; S s; unsigned w; bool isUF; unsigned arity; double lo, hi; };
extern std::vector<VarInfo> g_vars;

extern bool g_realMode;       // doubles are Real-sorted
extern bool g_roundModel;     // Real-sorted doubles carry rounding-error bounds

Expr* mkConst(u128 v, unsigned w);
Expr* mkBool(bool b);
Expr* mkFP(double d);        // sort by mode
Expr* mkVar(const std::string& name, S s, unsigned w, double lo = -INFINITY, double hi = INFINITY);
Expr* mkUF(const std::string& name, const std::vector<Expr*>& args, S s, unsigned w, double lo = -INFINITY, double hi = INFINITY);
Expr* mkBin(K k, Expr* a, Expr* b);
Expr* mkUn(K k, Expr* a);
Expr* mkNot(Expr* a);
Expr* mkAnd(Expr* a, Expr* b);
Expr* mkOr(Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkFToI(Expr* a, unsigned w, bool sgn);
Expr* mkFFromI(Expr* a, bool sgn);
Expr* mkFFromBits(Expr* a);
Expr* mkFBits(Expr* a);
Expr* boolToBV(Expr* b, unsigned w);
const std::vector<uint32_t>& varsOf(Expr* e);
std::string toStr(Expr* e, int depth = 6);
inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextW(u128 v, unsigned w) { if (w < 128 && (v >> (w - 1)) & 1) v |= ~maskW(w); return (i128)v; }
size_t numExprs();
