#pragma once
#include "expr.h"
#include <map>
#include <set>
#include <unordered_set>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, abstracted = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; };
struct Solver {
  Z3_context ctx;
  SolverStats st;
  unsigned leftMs = 1000000000; unsigned timeoutMs = 20000;
  Solver();
  // satisfiable(pc-slice and cond)?
  Res check(const std::vector<Expr*>& pc, Expr* cond, Z3_model* m = nullptr, unsigned tmo = 0);
  Res checkSet(std::vector<Expr*> cs, Z3_model* m, unsigned tmo);
  std::vector<Expr*> slice(const std::vector<Expr*>& pc, const std::vector<uint32_t>& vars);
  Z3_ast tr(Expr* e);
  Z3_ast trAbs(Expr* e); // floating-point arithmetic replaced by unconstrained values
  void absSides(const std::vector<Expr*>& cs, std::vector<Z3_ast>& out);
  std::unordered_map<uint32_t, Z3_ast> absZ;
  // a full model of pc as a list of component models
  struct Model { std::vector<std::pair<std::vector<uint32_t>, Z3_model>> parts; bool ok = false; };
  Model model(const std::vector<Expr*>& pc, Expr* extra = nullptr);
  void freeModel(Model& m);
  // concrete value of e: BV/Bool in .c, FP/Real in .d
  bool eval(Model& m, Expr* e, u128& c, double& d);
  bool evalIn(Z3_model m, Expr* e, u128& c, double& d);
private:
  // recent models; a set of constraints that holds in one of them needs no query
  struct Kept { std::unordered_map<uint32_t, u128> leaf; std::unordered_map<uint32_t, std::pair<bool, u128>> memo; Z3_model zm = nullptr; };
  std::vector<Kept*> kept;
  bool evalKept(Kept& m, Expr* e, u128& v);
  bool holdsIn(Kept& m, const std::vector<Expr*>& cs);
  void keep(const std::vector<Expr*>& cs, Z3_model m);
  std::unordered_map<uint32_t, Z3_func_decl> ufs;
  std::unordered_map<std::string, Res> cache;
  Z3_sort sortOf(S s, unsigned w);
  Z3_ast bitSum(Z3_ast bv, unsigned w, bool sgn); Z3_ast realConst(double d);
  void sides(const std::vector<Expr*>& cs, std::vector<Z3_ast>& out);
  Z3_ast toZ(K k, Expr* e, Z3_ast* a);
  Z3_solver lra = nullptr; unsigned lraUses = 0;
  Z3_sort fp64; Z3_ast rne, rna, rtz, rtp, rtn;
};
