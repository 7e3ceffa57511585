#include "exec.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <bit>
using namespace llvm;
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

#define REG(i) ((i) >= 0 ? R[i] : fr->fn->consts[-(i) - 1])

void Exec::call(Ins& in, Frame& fr, Fn* f, std::vector<Val>& args) {
  if (mergeDepth && f->F->isDeclaration() && !f->pureExt) {
    std::string n = f->name; Type* RT = f->F->getReturnType(); bool allD = RT->isDoubleTy(); for (auto& A : f->F->args()) if (!A.getType()->isDoubleTy()) allD = false;
    if (allD || n == "sym_and" || n == "sym_or" || n == "sym_select" || (f->F->isIntrinsic() && n.find("mem") == std::string::npos)) f->pureExt = true; else throw MergeFail();
  }
  if (f->ext < 0 && !f->F->isDeclaration()) {
    // byval arguments are copied for the callee
    bool anyByVal = false; for (auto& A : f->F->args()) if (A.hasByValAttr()) anyByVal = true;
    if (anyByVal) {
      int s = 0; std::vector<uint32_t> own;
      for (auto& A : f->F->args()) {
        if (A.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(A.getParamByValType()); uint64_t src = concretize(args[s], 64); uint32_t id = newObj(sz, 2, false); copyMem(baseOf(id), src, sz); args[s] = {baseOf(id), nullptr}; own.push_back(id); }
        s += slotsOf(A.getType());
      }
      pushFrame(f, args, in.dst); for (uint32_t id : own) th[cur]->st.back().allocas.push_back(id);
      return;
    }
    pushFrame(f, args, in.dst); return;
  }
  if (f->ext < 0) {
    std::string n = f->name;
    // library maths on concrete values / stream output
    Type* RT = f->F->getReturnType();
    if ((n == "ldexp" || n == "scalbn") && !args[1].e) {
      Val r = args[0].e ? fpbin(Instruction::FMul, args[0], Val{asU(std::ldexp(1.0, (int)args[1].c)), nullptr}, L_DBL) : Val{asU(std::ldexp(asD(args[0].c), (int)args[1].c)), nullptr};
      Frame& c = th[cur]->st.back(); if (in.dst >= 0) c.R[in.dst] = r;
      if (in.op == Instruction::Invoke) jump(c, in.b); else c.pc++;
      return;
    }
    bool allD = RT->isDoubleTy() && args.size() >= 1 && args.size() <= 2;
    for (auto& A : f->F->args()) if (!A.getType()->isDoubleTy()) allD = false;
    if (allD) {
      Val r = args.size() == 1 ? libm1(n, args[0]) : libm2(n, args[0], args[1]);
      Frame& c = th[cur]->st.back(); if (in.dst >= 0) c.R[in.dst] = r;
      if (in.op == Instruction::Invoke) jump(c, in.b); else c.pc++;
      return;
    }
    auto pre = [&](const char* p) { return n.rfind(p, 0) == 0; };
    bool stream = pre("_ZNSo") || pre("_ZStls") || pre("_ZSt4endl") || pre("_ZSt5flush") || pre("_ZNSt14basic_ofstream") || pre("_ZSt16__ostream_insert") || pre("_ZNSt8ios_base") || pre("_ZNSt9basic_iosIcS") || pre("_ZSt21ios_base_library_init") || pre("_ZNSt13basic_filebuf") || pre("_ZNSt6locale") || pre("_ZNSt13basic_fstream") || pre("_ZNSt7__cxx1119basic_ostringstream") || pre("_ZNSt7__cxx1118basic_stringstream") || pre("_ZNSt7__cxx1115basic_stringbuf") || pre("_ZNKSt9basic_ios") || pre("_ZNKSt14basic_ofstream") || pre("_ZNSt15basic_streambuf") || pre("_ZNSt12__basic_file") || pre("_ZNSt10ostrstream") || pre("puts") || pre("printf") || pre("fprintf") || pre("fflush") || pre("putchar");
    if (stream) {
      bool ctor = n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos;
      if (ctor && !args.empty() && !args[0].e) { // give it a zeroed dummy vtable
        uint32_t id = newObj(1024, 0, true); uint64_t off; find(args[0].c, 8, off, true, "stream"); wr(args[0].c, 8, baseOf(id) + 512);
      }
      streamCalls++;
      Frame& c = th[cur]->st.back(); 
      if (in.dst >= 0) c.R[in.dst] = RT->isPointerTy() && !args.empty() ? args[0] : Val{RT->isIntegerTy(1) ? 1u : 0u, nullptr};
      if (in.op == Instruction::Invoke) jump(c, in.b); else c.pc++;
      return;
    }
    cut("unsupported external function " + demangle(n));
  }
  Val ret[8]; for (auto& r : ret) r = Val{0, nullptr};
  int tcur = cur; size_t depth = th[cur]->st.size(); curCallee = f;
  if (!exts[f->ext](args, ret)) return;
  (void)depth;
  Thread* t = th[tcur]; Frame& c = t->st.back();
  if (in.dst >= 0) for (unsigned i = 0; i < in.n && i < 8; i++) c.R[in.dst + i] = ret[i];
  if (in.op == Instruction::Invoke) jump(c, in.b); else c.pc++;
}

// an atomic operation: no race by itself, and a synchronisation through its address
struct Exec::AtomicScope { Exec* x; uint64_t a; bool on, old; AtomicScope(Exec* x, uint64_t a) : x(x), a(a), on(x->tracking && x->opt.race), old(x->opt.race) { if (on) { x->syncAcquire(a); x->opt.race = false; } } ~AtomicScope() { if (on) { x->opt.race = old; x->syncRelease(a); } } };
void Exec::interp() {
  std::vector<Val> args;
  for (;;) {
    Thread* t = th[cur];
    if (t->st.empty()) {
      t->done = true;
      if (cur == 0) return;
      schedule(false); continue;
    }
    Frame* fr = &t->st.back(); Val* R = fr->R; Fn* fn = fr->fn;
    // run within this frame until the frame stack changes
    for (;;) {
      Ins& in = fn->code[fr->pc];
      if (++pathInstr > opt.maxInstr) cut("instruction limit per path");
      if (mergeDepth && pathInstr > mergeLimit) throw MergeFail();
      switch (in.op) {
        case Instruction::Ret: {
          Val rv[16]; for (unsigned i = 0; i < in.n && i < 16; i++) rv[i] = in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i];
          if (mergeDepth && t->st.size() <= mergeFrames) throw MergeFail();
          popFrame();
          if (!t->st.empty()) {
            Frame& c = t->st.back(); Ins& ci = c.fn->code[c.pc];
            if (ci.dst >= 0) for (unsigned i = 0; i < in.n; i++) c.R[ci.dst + i] = rv[i];
            if (ci.op == Instruction::Invoke) jump(c, ci.b); else c.pc++;
          }
          goto next;
        }
        case Instruction::Br:
        {
          int e;
          if (in.n == 1) e = in.b;
          else {
            Val c = REG(in.a); bool b;
            if (c.e) {
              if (branch(*fr, in, c.e)) { // both sides were merged; execution continues at the join block
                if (mergeDepth && stopEdge == -2) return;
                goto next;
              }
              b = decide(c.e);
            } else b = c.c & 1;
            e = b ? in.b : in.c;
          }
          if (mergeDepth && t->st.size() == mergeFrames && fn->edges[e].target == stopPc) { stopEdge = e; return; }
          jump(*fr, e); break;
        }
        case Instruction::Switch: {
          Val v = REG(in.a); auto* vals = (uint64_t*)in.p; int tgt = in.b;
          if (!v.e) { for (unsigned i = 0; i < in.n; i++) if (vals[i] == v.c) { tgt = in.ops[i]; break; } }
          else for (unsigned i = 0; i < in.n; i++) if (decide(v.e->s == S::Bool ? mkEq(v.e, mkBool(vals[i])) : mkEq(v.e, mkConst(vals[i], in.w)))) { tgt = in.ops[i]; break; }
          if (mergeDepth && t->st.size() == mergeFrames && fn->edges[tgt].target == stopPc) { stopEdge = tgt; return; }
          jump(*fr, tgt); break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          args.resize(in.w2);
          for (unsigned i = 0; i < in.w2; i++) args[i] = REG(in.ops[i]);
          Fn* f = (Fn*)in.p;
          if (!f) {
            if (in.imm == 1) { // inline asm: only empty barriers
              if (in.n) cut("unsupported: inline assembly"); fr->pc++; break;
            }
            uint64_t fa = concretize(REG(in.a), 64); uint64_t id = fa >> 32;
            if (id == 0 || id >= objs.size() || !objs[id].fn) violate("memory-error", "call through an invalid function pointer");
            f = objs[id].fn;
          }
          // hot intrinsics without effect
          call(in, *fr, f, args);
          goto next;
        }
        case Instruction::Unreachable: violate("unreachable", "unreachable code executed (missing return or impossible case)");
        case Instruction::Resume: {
          if (mergeDepth) throw MergeFail();
          uint64_t exc = concretize(REG(in.a), 64); uint64_t ti = excs.count(exc) ? excs[exc].ti : 0;
          // resume unwinding in the caller of this frame
          popFrame();
          if (t->st.empty()) violate("uncaught-exception", "uncaught exception");
          doThrow(exc, ti); goto next;
        }
        case Instruction::LandingPad: R[in.dst] = {fr->lpExc, nullptr}; R[in.dst + 1] = {fr->lpSel, nullptr}; fr->pc++; break;
        case Instruction::Alloca: {
          if (mergeDepth && t->st.size() == mergeFrames) throw MergeFail();
          uint64_t n = concretize(REG(in.a), 64); uint32_t id = newObj(in.imm * n, 2, false);
          fr->allocas.push_back(id); R[in.dst] = {baseOf(id), nullptr}; fr->pc++; break;
        }
        case Instruction::Load: {
          Val p = REG(in.a); uint64_t a = p.e ? concretize(p, 64) : p.c;
          if (tracking && cast<LoadInst>(in.I)->isAtomic()) { AtomicScope as(this, a); auto& ls = *in.leaves; for (size_t i = 0; i < ls.size(); i++) R[in.dst + i] = loadLeaf(a + ls[i].off, ls[i]); fr->pc++; break; }
          auto& ls = *in.leaves;
          if (ls.size() == 1) {
            const Leaf& l = ls[0]; uint64_t id = a >> 32, off = (a & 0xffffffffu) - 0x1000;
            if (id && id < objs.size() && l.bytes <= 8 && objs[id].alive && !objs[id].nsym && off + l.bytes <= objs[id].size && off < objs[id].size) {
              uint64_t v = 0; memcpy(&v, objs[id].data + off, l.bytes); if (l.k == L_INT && l.w < 64) v &= m64(l.w);
              if (tracking) access(a, l.bytes, false);
              R[in.dst] = {v, nullptr};
            } else R[in.dst] = loadLeaf(a, l);
          } else for (size_t i = 0; i < ls.size(); i++) R[in.dst + i] = loadLeaf(a + ls[i].off, ls[i]);
          fr->pc++; break;
        }
        case Instruction::Store: {
          Val p = REG(in.b); uint64_t a = p.e ? concretize(p, 64) : p.c;
          auto& ls = *in.leaves;
          if (tracking && cast<StoreInst>(in.I)->isAtomic()) { AtomicScope as(this, a); for (size_t i = 0; i < ls.size(); i++) storeLeaf(a + ls[i].off, ls[i], in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i]); fr->pc++; break; }
          for (size_t i = 0; i < ls.size(); i++) storeLeaf(a + ls[i].off, ls[i], in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i]);
          fr->pc++; break;
        }
        case Instruction::Fence: fr->pc++; break;
        case Instruction::AtomicRMW: {
          if (mergeDepth) throw MergeFail();
          uint64_t a = concretize(REG(in.a), 64); AtomicScope as(this, a); const Leaf& l = (*in.leaves)[0]; Val o = loadLeaf(a, l), v = REG(in.b), n;
          switch (in.imm) {
            case AtomicRMWInst::Xchg: n = v; break;
            case AtomicRMWInst::Add: n = binop(Instruction::Add, o, v, l.k, l.w, false, false); break;
            case AtomicRMWInst::Sub: n = binop(Instruction::Sub, o, v, l.k, l.w, false, false); break;
            case AtomicRMWInst::And: n = binop(Instruction::And, o, v, l.k, l.w, false, false); break;
            case AtomicRMWInst::Or: n = binop(Instruction::Or, o, v, l.k, l.w, false, false); break;
            case AtomicRMWInst::Xor: n = binop(Instruction::Xor, o, v, l.k, l.w, false, false); break;
            default: cut("unsupported atomic operation");
          }
          storeLeaf(a, l, n); R[in.dst] = o; fr->pc++; break;
        }
        case Instruction::AtomicCmpXchg: {
          if (mergeDepth) throw MergeFail();
          uint64_t a = concretize(REG(in.a), 64); AtomicScope as(this, a); const Leaf& l = (*in.leaves)[0]; Val o = loadLeaf(a, l);
          Val eq = icmp(CmpInst::ICMP_EQ, o, REG(in.b), l.k, l.w); bool ok = eq.e ? decide(eq.e) : eq.c;
          if (ok) storeLeaf(a, l, REG(in.c));
          R[in.dst] = o; R[in.dst + 1] = {ok, nullptr}; fr->pc++; break;
        }
        case Instruction::GetElementPtr: {
          Val b = REG(in.a); auto* sc = (int64_t*)in.p; uint64_t c = in.imm; Expr* e = nullptr;
          for (unsigned i = 0; i < in.n; i++) {
            Val x = REG(in.ops[2 * i]); unsigned w = in.ops[2 * i + 1];
            if (!x.e) c += (uint64_t)(sx(x.c, w) * sc[i]);
            else { Expr* t2 = mkBin(K::Mul, mkSExt(x.e, 64), mkConst((uint64_t)sc[i], 64)); e = e ? mkBin(K::Add, e, t2) : t2; }
          }
          if (!b.e && !e) R[in.dst] = {b.c + c, nullptr};
          else {
            Expr* r = toE(b, L_PTR, 64); if (e) r = mkBin(K::Add, r, e); if (c) r = mkBin(K::Add, r, mkConst(c, 64));
            R[in.dst] = fromE(r);
          }
          fr->pc++; break;
        }
        case Instruction::ICmp: {
          if (in.n == 1) {
            Val a = REG(in.a), b = REG(in.b); R[in.dst] = icmp(in.imm, a, b, in.k2, in.w2);
          } else for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = icmp(in.imm, in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i], in.b >= 0 ? R[in.b + i] : fn->consts[-in.b - 1 + i], in.k2, in.w2);
          fr->pc++; break;
        }
        case Instruction::FCmp:
          for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = fcmp(in.imm, in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i], in.b >= 0 ? R[in.b + i] : fn->consts[-in.b - 1 + i], in.k2);
          fr->pc++; break;
        case Instruction::Select: {
          auto& ls = *in.leaves;
          for (size_t i = 0; i < ls.size(); i++) {
            Val c = in.imm ? (in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i]) : REG(in.a);
            Val x = in.b >= 0 ? R[in.b + i] : fn->consts[-in.b - 1 + i], y = in.c >= 0 ? R[in.c + i] : fn->consts[-in.c - 1 + i];
            if (!c.e) R[in.dst + i] = (c.c & 1) ? x : y;
            else if (ls[i].k == L_FLT || ls[i].k == L_X80) R[in.dst + i] = decide(c.e) ? x : y;
            else if (ls[i].k == L_DBL && g_realMode && ((!x.e && !std::isfinite(asD(x.c))) || (!y.e && !std::isfinite(asD(y.c))))) R[in.dst + i] = decide(c.e) ? x : y;
            else if (ls[i].k == L_PTR) R[in.dst + i] = decide(c.e) ? x : y;
            else R[in.dst + i] = fromE(mkIte(c.e, toE(x, ls[i].k, ls[i].w), toE(y, ls[i].k, ls[i].w)));
          }
          fr->pc++; break;
        }
        case Instruction::ExtractValue:
          for (unsigned i = 0; i < in.w2; i++) R[in.dst + i] = in.a >= 0 ? R[in.a + in.imm + i] : fn->consts[-in.a - 1 + in.imm + i];
          fr->pc++; break;
        case Instruction::InsertValue: {
          for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i];
          for (unsigned i = 0; i < in.w2; i++) R[in.dst + in.imm + i] = in.b >= 0 ? R[in.b + i] : fn->consts[-in.b - 1 + i];
          fr->pc++; break;
        }
        case Instruction::ExtractElement: { uint64_t ix = concretize(REG(in.b), 64); R[in.dst] = in.a >= 0 ? R[in.a + ix] : fn->consts[-in.a - 1 + ix]; fr->pc++; break; }
        case Instruction::InsertElement: { uint64_t ix = concretize(REG(in.c), 64); for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i]; R[in.dst + ix] = REG(in.b); fr->pc++; break; }
        case Instruction::ShuffleVector: {
          for (unsigned i = 0; i < in.n; i++) { int mI = in.ops[i]; if (mI < 0) { R[in.dst + i] = {0, nullptr}; continue; }
            int src = mI < in.w2 ? in.a : in.b, k = mI < in.w2 ? mI : mI - in.w2; R[in.dst + i] = src >= 0 ? R[src + k] : fn->consts[-src - 1 + k]; }
          fr->pc++; break;
        }
        case Instruction::Freeze: for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i]; fr->pc++; break;
        case Instruction::FNeg:
          for (unsigned i = 0; i < in.n; i++) {
            Val v = in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i];
            if (!v.e) R[in.dst + i] = in.k == L_FLT ? Val{v.c ^ 0x80000000u, nullptr} : Val{asU(-asD(v.c)), nullptr};
            else R[in.dst + i] = fromE(mkUn(K::FNeg, v.e));
          }
          fr->pc++; break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = fpbin(in.op, in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i], in.b >= 0 ? R[in.b + i] : fn->consts[-in.b - 1 + i], in.k);
          fr->pc++; break;
        case 255: { std::string s; raw_string_ostream os(s); in.I->print(os); cut("unsupported instruction " + s); }
        default:
          if (in.op >= Instruction::Trunc && in.op <= Instruction::AddrSpaceCast) {
            if (in.imm == -1) cut("unsupported: vector bitcast");
            for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = castop(in, in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i]);
          } else {
            for (unsigned i = 0; i < in.n; i++) R[in.dst + i] = binop(in.op, in.a >= 0 ? R[in.a + i] : fn->consts[-in.a - 1 + i], in.b >= 0 ? R[in.b + i] : fn->consts[-in.b - 1 + i], in.k, in.w, in.imm & 1, in.imm & 2);
          }
          fr->pc++; break;
      }
    }
    next:;
  }
}

// ---------------------------------------------------------------- libm
// e without the sign in front of it: true if one was taken away
static bool stripSign(Expr*& e) {
  if (e->k == K::FNeg) { e = e->a[0]; return !stripSign(e); }
  if (e->isConst() && (e->s == S::Real || e->s == S::FP) && e->d < 0) { e = e->s == S::Real ? mkUn(K::FNeg, e) : mkFP(-e->d); return true; }
  if (e->k == K::FMul || e->k == K::FDiv) { Expr *x = e->a[0], *y = e->a[1]; bool sx = stripSign(x), sy = stripSign(y); if (sx || sy) e = mkBin(e->k, x, y); return sx != sy; }
  return false;
}
Val Exec::libm1(const std::string& n0, Val x) {
  std::string n = n0;
  if (!x.e) {
    static const std::map<std::string, double (*)(double)> t = {{"sqrt", sqrt}, {"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"exp", exp}, {"exp2", exp2}, {"log", log}, {"log2", log2}, {"log10", log10}, {"floor", floor}, {"ceil", ceil}, {"trunc", trunc}, {"round", round}, {"rint", rint}, {"nearbyint", nearbyint}, {"fabs", fabs}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"cbrt", cbrt}, {"log1p", log1p}, {"expm1", expm1}, {"erf", erf}, {"tgamma", tgamma}, {"lgamma", lgamma}, {"exp10", exp10}};
    auto it = t.find(n); if (it == t.end()) cut("unsupported external function " + n);
    return {asU(it->second(asD(x.c))), nullptr};
  }
  Expr* e = x.e;
  if (n == "fabs") return fromE(mkUn(K::FAbs, e));
  if (n == "floor") return fromE(mkUn(K::FFloor, e));
  if (n == "ceil") return fromE(mkUn(K::FCeil, e));
  if (n == "trunc") return fromE(mkUn(K::FTrunc, e));
  if (n == "round") return fromE(mkUn(K::FRoundAway, e));
  if (n == "rint" || n == "nearbyint") return fromE(mkUn(K::FRoundEven, e));
  if (n == "sqrt") {
    if (e->s == S::Real) { if (decide(mkBin(K::FLt, e, mkFP(0.0)))) return {asU(NAN), nullptr}; }
    return fromE(mkUn(K::FSqrt, e));
  }
  // uninterpreted with range facts
  if (n == "cos") { stripSign(e); return fromE(mkUF("cos", {e}, e->s, 64, -1, 1)); }
  if (n == "sin") { bool neg = stripSign(e); Expr* r = mkUF("sin", {e}, e->s, 64, -1, 1); return fromE(neg ? mkUn(K::FNeg, r) : r); }
  if (n == "exp") { // at most 1 for arguments up to 0, exactly 1 at 0, at least 1 above
    Expr* r = mkIte(mkBin(K::FLe, e, mkFP(0.0)), mkIte(mkBin(K::FEq, e, mkFP(0.0)), mkFP(1.0), mkUF("exp", {e}, e->s, 64, 0, 1)), mkUF("exp+", {e}, e->s, 64, 1, INFINITY));
    if (e->s == S::FP) r = mkIte(mkUn(K::FIsNan, e), mkFP(NAN), mkIte(mkBin(K::FEq, e, mkFP(-INFINITY)), mkFP(0.0), r));
    return fromE(r);
  }
  if (n == "log") {
    if (e->s == S::Real) { if (decide(mkBin(K::FLt, e, mkFP(0.0)))) return {asU(NAN), nullptr}; if (decide(mkBin(K::FEq, e, mkFP(0.0)))) return {asU(-INFINITY), nullptr}; }
    return fromE(mkUF("log", {e}, e->s, 64, e->s == S::Real ? -INFINITY : NAN, INFINITY));
  }
  if (n == "asin" || n == "atan") return fromE(mkUF(n, {e}, e->s, 64, -1.5707963267948968, 1.5707963267948968));
  cut("unsupported: symbolic " + n);
}
Val Exec::libm2(const std::string& n, Val x, Val y) {
  if (!x.e && !y.e) {
    static const std::map<std::string, double (*)(double, double)> t = {{"pow", pow}, {"fmod", fmod}, {"atan2", atan2}, {"hypot", hypot}, {"fmax", fmax}, {"fmin", fmin}, {"copysign", copysign}, {"nextafter", nextafter}, {"fdim", fdim}, {"remainder", remainder}};
    auto it = t.find(n); if (it == t.end()) cut("unsupported external function " + n);
    return {asU(it->second(asD(x.c), asD(y.c))), nullptr};
  }
  Expr *a = toE(x, L_DBL, 64), *b = toE(y, L_DBL, 64);
  if (n == "fmax") return fromE(mkIte(mkBin(K::FLt, a, b), b, a));
  if (n == "fmin") return fromE(mkIte(mkBin(K::FLt, b, a), b, a));
  if (n == "hypot") return libm1("sqrt", fromE(mkBin(K::FAdd, mkBin(K::FMul, a, a), mkBin(K::FMul, b, b))));
  if (n == "pow" && b->isConst()) {
    double p = b->d;
    if (p == 0) return {asU(1.0), nullptr};
    if (p == 1) return fromE(a);
    if (p == std::floor(p) && std::fabs(p) <= 8 && a->s == S::Real) {
      Expr* r = a; for (int i = 1; i < (int)std::fabs(p); i++) r = mkBin(K::FMul, r, a);
      return fromE(p < 0 ? fdivReal(mkFP(1.0), r) : r);
    }
    if (p == 2) return fromE(mkBin(K::FMul, a, a)); // glibc pow(x,2) is correctly rounded to within an ulp of x*x
    if (p == 0.5) return libm1("sqrt", fromE(a));
  }
  if (n == "pow") return fromE(mkUF("pow", {a, b}, a->s, 64, a->s == S::Real ? -INFINITY : NAN, INFINITY));
  if (n == "copysign" && g_realMode) { bool neg = decide(mkBin(K::FLt, b, mkFP(0.0))); Expr* m = mkUn(K::FAbs, a); return fromE(neg ? mkUn(K::FNeg, m) : m); }
  cut("unsupported: symbolic " + n);
}

// ---------------------------------------------------------------- externals
void Exec::registerExts() {
  auto reg = [&](std::initializer_list<const char*> names, ExtFn f) { int i = exts.size(); exts.push_back(f); for (auto n : names) extIdx[n] = i; };
  auto C = [this](Val v, unsigned w = 64) { return concretize(v, w); };
  // --- allocation
  reg({"_Znwm", "_Znam", "malloc", "fftw_malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}, [=, this](std::vector<Val>& a, Val* r) {
    uint64_t n = C(a[0]); if (n > (256u << 20)) cut("allocation of more than 256 MB"); r[0] = {baseOf(newObj(n, 1, false)), nullptr}; return true; });
  reg({"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t n = C(a[0]); r[0] = {baseOf(newObj(n, 1, false)), nullptr}; return true; });
  reg({"calloc"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t n = C(a[0]) * C(a[1]); r[0] = {baseOf(newObj(n, 1, true)), nullptr}; return true; });
  reg({"realloc"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t p = C(a[0]), n = C(a[1]); uint32_t id = newObj(n, 1, false); if (p) { uint64_t m = std::min(n, objs[p >> 32].size); copyMem(baseOf(id), p, m); objs[p >> 32].alive = 0; } r[0] = {baseOf(id), nullptr}; return true; });
  reg({"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "fftw_free", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, [=, this](std::vector<Val>& a, Val*) {
    uint64_t p = C(a[0]); if (!p) return true;
    uint64_t id = p >> 32; if (id >= objs.size() || (p & 0xffffffffu) != 0x1000 || objs[id].kind != 1) violate("memory-error", "invalid free");
    if (!objs[id].alive) violate("memory-error", "double free");
    if (tracking && objs[id].size) access(p, std::min<uint64_t>(objs[id].size, 4096), true);
    objs[id].alive = 0; return true; });
  // --- C++ ABI
  reg({"__cxa_allocate_exception"}, [=, this](std::vector<Val>& a, Val* r) { uint32_t id = newObj(C(a[0]), 4, false); r[0] = {baseOf(id), nullptr}; return true; });
  reg({"__cxa_free_exception"}, [=, this](std::vector<Val>& a, Val*) { return true; });
  reg({"__cxa_throw"}, [=, this](std::vector<Val>& a, Val*) { uint64_t e = C(a[0]), ti = C(a[1]); throwsSeen++; doThrow(e, ti); return false; });
  reg({"__cxa_begin_catch"}, [=, this](std::vector<Val>& a, Val* r) {
    uint64_t e = C(a[0]); auto& x = excs[e]; x.handlers++; x.rethrown = false; th[cur]->caught.push_back(e);
    auto it = tiOfAddr.find(x.ti); uint64_t adj = x.adj ? x.adj : e;
    if (it != tiOfAddr.end() && it->second->getName().starts_with("_ZTIP")) adj = e; // pointer types: caught by value through memory
    r[0] = {adj, nullptr};
    if (it != tiOfAddr.end() && it->second->getName().starts_with("_ZTIP")) r[0] = {rd(e, 8), nullptr};
    return true; });
  reg({"__cxa_get_exception_ptr"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t e = C(a[0]); r[0] = {excs[e].adj ? excs[e].adj : e, nullptr}; return true; });
  reg({"__cxa_end_catch"}, [=, this](std::vector<Val>& a, Val*) { auto& c = th[cur]->caught; if (!c.empty()) { excs[c.back()].handlers--; c.pop_back(); } return true; });
  reg({"__cxa_rethrow"}, [=, this](std::vector<Val>& a, Val*) {
    auto& c = th[cur]->caught; if (c.empty()) violate("terminate", "rethrow without an exception"); uint64_t e = c.back(); excs[e].rethrown = true; doThrow(e, excs[e].ti); return false; });
  reg({"_ZSt9terminatev", "__clang_call_terminate"}, [=, this](std::vector<Val>& a, Val*) -> bool { violate("terminate", "std::terminate called"); });
  reg({"abort", "_ZN10__cxxabiv111__terminateEPFvvE", "__assert_fail", "__cxa_pure_virtual", "_ZSt10unexpectedv", "__cxa_deleted_virtual", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "exit", "_exit"}, [=, this](std::vector<Val>& a, Val*) -> bool { violate("abort", "abnormal termination: " + curCallee->name); });
  reg({"_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv"}, [=, this](std::vector<Val>& a, Val* r) { r[0] = {0, nullptr}; return true; });
  reg({"__cxa_guard_acquire"}, [=, this](std::vector<Val>& a, Val* r) { r[0] = {rd(C(a[0]), 1) ? 0u : 1u, nullptr}; return true; });
  reg({"__cxa_guard_release"}, [=, this](std::vector<Val>& a, Val*) { wr(C(a[0]), 1, 1); return true; });
  reg({"__cxa_guard_abort", "__cxa_atexit", "atexit", "_ZSt21ios_base_library_initv", "srand", "__cxa_thread_atexit", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock"}, [=](std::vector<Val>& a, Val*) { return true; });
  reg({"__dynamic_cast"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t p = C(a[0]); r[0] = {p ? dynCast(p, C(a[1]), C(a[2])) : 0, nullptr}; return true; });
  // exception_ptr (never destroyed)
  reg({"_ZSt17current_exceptionv"}, [=, this](std::vector<Val>& a, Val*) { auto& c = th[cur]->caught; wr(C(a[0]), 8, c.empty() ? 0 : c.back()); return true; });
  reg({"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}, [=](std::vector<Val>& a, Val*) { return true; });
  reg({"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}, [=, this](std::vector<Val>& a, Val*) { wr(C(a[0]), 8, C(a[1])); return true; });
  reg({"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"}, [=, this](std::vector<Val>& a, Val*) { wr(C(a[0]), 8, rd(C(a[1]), 8)); return true; });
  reg({"_ZNSt15__exception_ptr13exception_ptraSERKS0_"}, [=, this](std::vector<Val>& a, Val* r) { wr(C(a[0]), 8, rd(C(a[1]), 8)); r[0] = a[0]; return true; });
  reg({"_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev"}, [=](std::vector<Val>& a, Val*) { return true; });
  reg({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}, [=, this](std::vector<Val>& a, Val*) -> bool { uint64_t e = rd(C(a[0]), 8); if (!e) violate("terminate", "rethrow of an empty exception_ptr"); excs[e].rethrown = true; doThrow(e, excs[e].ti); return false; });
  // --- the harness interface
  auto name = [=, this](Val v) { return rdStr(C(v)); };
  auto symInt = [=, this](const std::string& n, unsigned w, int64_t lo, int64_t hi) {
    if (lo == hi) { events.push_back({n, 0, nullptr, (uint64_t)lo, 0}); return Val{(uint64_t)lo & m64(w), nullptr}; }
    Expr* v = mkVar(freshName(n), S::BV, w, (double)lo, (double)hi);
    int64_t mn = w == 64 ? INT64_MIN : -(1LL << (w - 1)), mx = w == 64 ? INT64_MAX : (1LL << (w - 1)) - 1;
    if (lo > mn) addPC(mkBin(K::Sle, mkConst((uint64_t)lo, w), v));
    if (hi < mx) addPC(mkBin(K::Sle, v, mkConst((uint64_t)hi, w)));
    events.push_back({n, 0, v, 0, 0}); return Val{0, v};
  };
  reg({"sym_int"}, [=, this](std::vector<Val>& a, Val* r) { r[0] = symInt(name(a[0]), 32, sx(C(a[1], 32), 32), sx(C(a[2], 32), 32)); return true; });
  reg({"sym_i64"}, [=, this](std::vector<Val>& a, Val* r) { r[0] = symInt(name(a[0]), 64, (int64_t)C(a[1]), (int64_t)C(a[2])); return true; });
  reg({"sym_bool"}, [=, this](std::vector<Val>& a, Val* r) { std::string n = name(a[0]); Expr* v = mkVar(freshName(n), S::Bool, 1); events.push_back({n, 0, v, 0, 0}); r[0] = {0, boolToBV(v, 32)}; return true; });
  reg({"sym_double"}, [=, this](std::vector<Val>& a, Val* r) {
    std::string n = name(a[0]); double lo = asD(a[1].c), hi = asD(a[2].c);
    if (a[1].e || a[2].e) cut("sym_double with symbolic bounds");
    if (lo == hi) { events.push_back({n, 1, nullptr, 0, lo}); r[0] = {asU(lo), nullptr}; return true; }
    Expr* v = mkVar(freshName(n), g_realMode ? S::Real : S::FP, 64, lo, hi);
    v->lo = lo; v->hi = hi;
    if (g_realMode) { // the interval itself as explicit constraints
      Expr* raw = v; double L = lo, H = hi; raw->lo = -INFINITY; raw->hi = INFINITY;
      addPC(mkBin(K::FLe, mkFP(L), raw)); addPC(mkBin(K::FLe, raw, mkFP(H)));
      raw->lo = L; raw->hi = H;
    } else { addPC(mkBin(K::FLe, mkFP(lo), v)); addPC(mkBin(K::FLe, v, mkFP(hi))); }
    events.push_back({n, 1, v, 0, 0}); r[0] = {0, v}; return true; });
  reg({"sym_double_any"}, [=, this](std::vector<Val>& a, Val* r) { // any bit pattern, NaN and infinities included (exact mode)
    std::string n = name(a[0]); if (g_realMode) cut("sym_double_any in real mode");
    Expr* v = mkVar(freshName(n), S::FP, 64); events.push_back({n, 1, v, 0, 0}); r[0] = {0, v}; return true; });
  reg({"sym_assume"}, [=, this](std::vector<Val>& a, Val*) { Val v = a[0]; Expr* e = v.e ? (v.e->s == S::Bool ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w)))) : mkBool(v.c & 0xffffffff); assume(e); return true; });
  reg({"sym_assert"}, [=, this](std::vector<Val>& a, Val*) { Val v = a[0]; Expr* e = v.e ? (v.e->s == S::Bool ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w)))) : mkBool(v.c & 0xffffffff); assertProp(e, name(a[1])); return true; });
  reg({"sym_assert_close"}, [=, this](std::vector<Val>& a, Val*) { // |x-y| <= tol, tol concrete
    std::string m = name(a[3]); if (a[2].e) cut("symbolic tolerance"); double tol = asD(a[2].c);
    if (!a[0].e && !a[1].e) { double x = asD(a[0].c), y = asD(a[1].c); assertProp(mkBool(std::fabs(x - y) <= tol), m); return true; }
    Expr *x = toE(a[0], L_DBL, 64), *y = toE(a[1], L_DBL, 64);
    if ((x->isConst() && !std::isfinite(x->d)) || (y->isConst() && !std::isfinite(y->d))) { assertProp(mkBool(false), m); return true; }
    Expr* d = mkBin(K::FSub, x, y);
    Expr* ok = mkAnd(mkBin(K::FLe, mkFP(-tol), d), mkBin(K::FLe, d, mkFP(tol)));
    Expr* strong = mkOr(mkBin(K::FLt, d, mkFP(-1000 * tol)), mkBin(K::FLt, mkFP(1000 * tol), d));
    assertProp(ok, m, strong); return true; });
  reg({"sym_cover"}, [=, this](std::vector<Val>& a, Val*) { covers[name(a[0])]++; return true; });
  reg({"sym_uf"}, [=, this](std::vector<Val>& a, Val* r) { // name, n, double args*, lo, hi
    std::string n = name(a[0]); uint64_t k = C(a[1], 32), p = C(a[2]); double lo = asD(a[3].c), hi = asD(a[4].c);
    std::vector<Expr*> as; Leaf l{0, L_DBL, 64, 8};
    for (uint64_t i = 0; i < k; i++) as.push_back(toE(loadLeaf(p + 8 * i, l), L_DBL, 64));
    Expr* v;
    bool conc = true; for (Expr* e : as) if (!e->isConst()) conc = false;
    if (conc) { std::string key = n; char b[40]; for (Expr* e : as) { snprintf(b, sizeof b, "|%a", e->d == 0 ? 0.0 : e->d); key += b; }
      v = mkVar("uf!" + key, g_realMode ? S::Real : S::FP, 64, lo, hi);
      if (ufSeen.insert(key).second) { double L = std::isfinite(lo) ? lo : -1.7976931348623157e308, H = std::isfinite(hi) ? hi : 1.7976931348623157e308;
        if (!g_realMode) { addPC(mkBin(K::FLe, mkFP(L), v)); addPC(mkBin(K::FLe, v, mkFP(H))); }
        else { double sl = v->lo, sh = v->hi; v->lo = -INFINITY; v->hi = INFINITY; if (std::isfinite(lo)) addPC(mkBin(K::FLe, mkFP(lo), v)); if (std::isfinite(hi)) addPC(mkBin(K::FLe, v, mkFP(hi))); v->lo = sl; v->hi = sh; } }
      ufConc = true;
    } else { v = mkUF(n, as, g_realMode ? S::Real : S::FP, 64, lo, hi); ufSym = true; }
    if (ufConc && ufSym) cut("objective applied to both concrete and symbolic points");
    events.push_back({n, 1, v, 0, 0}); r[0] = {0, v}; return true; });
  reg({"sym_choice"}, [=, this](std::vector<Val>& a, Val* r) { std::string n = name(a[0]); unsigned k = C(a[1], 32); if (k <= 1) { events.push_back({n, 0, nullptr, 0, 0}); r[0] = {0, nullptr}; } else r[0] = {nway(k, n.c_str()), nullptr}; return true; });
  reg({"sym_concretize"}, [=, this](std::vector<Val>& a, Val* r) { r[0] = {C(a[0], 32), nullptr}; return true; });
  reg({"sym_observe_int"}, [=, this](std::vector<Val>& a, Val*) { Event e{name(a[0]), 0, a[1].e, a[1].c, 0}; if (!a[1].e) e.c = (uint64_t)sx(a[1].c, 64); observes.push_back(e); return true; });
  reg({"sym_observe"}, [=, this](std::vector<Val>& a, Val*) { observes.push_back({name(a[0]), 1, a[1].e, 0, asD(a[1].c)}); return true; });
  reg({"sym_fail"}, [=, this](std::vector<Val>& a, Val*) -> bool { violate("assertion", name(a[0])); });
  reg({"sym_cut"}, [=, this](std::vector<Val>& a, Val*) -> bool { throw PathResult{End::Cut, "bound: " + name(a[0]), pathInstr}; });
  reg({"sym_done"}, [=, this](std::vector<Val>& a, Val*) -> bool { throw PathResult{End::Ok, "", pathInstr}; });
  reg({"sym_is_symbolic"}, [=, this](std::vector<Val>& a, Val* r) { r[0] = {1, nullptr}; return true; });
  reg({"sym_mem_size"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t p = C(a[0]); r[0] = {objs[p >> 32].size, nullptr}; return true; });
  // logical connectives without branching
  reg({"sym_and"}, [=, this](std::vector<Val>& a, Val* r) { auto b = [&](Val v) { return v.e ? (v.e->s == S::Bool ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w)))) : mkBool(v.c & 0xffffffff); }; r[0] = fromE(boolToBV(mkAnd(b(a[0]), b(a[1])), 32)); return true; });
  reg({"sym_or"}, [=, this](std::vector<Val>& a, Val* r) { auto b = [&](Val v) { return v.e ? (v.e->s == S::Bool ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w)))) : mkBool(v.c & 0xffffffff); }; r[0] = fromE(boolToBV(mkOr(b(a[0]), b(a[1])), 32)); return true; });
  reg({"sym_select"}, [=, this](std::vector<Val>& a, Val* r) { auto b = [&](Val v) { return v.e ? (v.e->s == S::Bool ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w)))) : mkBool(v.c & 0xffffffff); }; r[0] = fromE(mkIte(b(a[0]), toE(a[1], L_DBL, 64), toE(a[2], L_DBL, 64))); return true; });
  // threads
  reg({"sym_thread_create"}, [=, this](std::vector<Val>& a, Val* r) {
    uint64_t fa = C(a[0]); uint64_t id = fa >> 32; if (id == 0 || id >= objs.size() || !objs[id].fn) violate("memory-error", "thread entry");
    Thread* t = new Thread; t->id = th.size(); th.push_back(t); if ((int)th[cur]->vc.size() <= cur) th[cur]->vc.resize(cur + 1, 1); t->vc = th[cur]->vc; t->vc.resize(t->id + 1, 0); t->vc[t->id] = 1; th[cur]->vc[cur]++; foot[0] = true; tracking = true; int me = cur; cur = t->id; pushFrame(objs[id].fn, {a[1]}, -1); cur = me; r[0] = {(uint64_t)t->id, nullptr}; return true; });
  reg({"sym_thread_self"}, [=, this](std::vector<Val>& a, Val* r) { r[0] = {(uint64_t)cur, nullptr}; return true; });
  reg({"sym_sched_wait"}, [=, this](std::vector<Val>& a, Val*) { // scheduling point; 0 = plain yield, else block until *flag != 0
    th[cur]->waitAddr = C(a[0]);
    // complete this call first: the thread resumes after it
    Frame& c = th[cur]->st.back(); Ins& in = c.fn->code[c.pc]; if (in.op == Instruction::Invoke) jump(c, in.b); else c.pc++;
    schedule(true); return false; });
  reg({"memcpy", "memmove"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t n = C(a[2]); if (n) copyMem(C(a[0]), C(a[1]), n); r[0] = a[0]; return true; });
  reg({"memset"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t n = C(a[2]); if (n) setMem(C(a[0]), a[1], n); r[0] = a[0]; return true; });
  reg({"_ZN5boost4shim7acquireEPKv"}, [=, this](std::vector<Val>& a, Val*) { if (opt.race) syncAcquire(C(a[0])); return true; });
  reg({"_ZN5boost4shim7releaseEPKv"}, [=, this](std::vector<Val>& a, Val*) { if (opt.race) syncRelease(C(a[0])); return true; });
  reg({"sym_thread_done"}, [=, this](std::vector<Val>& a, Val* r) { uint64_t i = C(a[0], 32); r[0] = {(uint64_t)(i < th.size() && th[i]->done), nullptr}; return true; });
  // --- intrinsics (registered under their mangled names)
  for (Function& F : *M) {
    if (!F.isIntrinsic()) continue;
    std::string n = F.getName().str(); auto pre = [&](const char* p) { return n.rfind(p, 0) == 0; };
    Type* RT = F.getReturnType(); unsigned w = RT->isIntegerTy() ? RT->getIntegerBitWidth() : 64;
    if (RT->isStructTy()) w = RT->getStructElementType(0)->isIntegerTy() ? RT->getStructElementType(0)->getIntegerBitWidth() : 64;
    const char* nm = strdup(n.c_str());
    if (pre("llvm.memcpy") || pre("llvm.memmove")) reg({nm}, [=, this](std::vector<Val>& a, Val*) { uint64_t n = C(a[2]); if (n) copyMem(C(a[0]), C(a[1]), n); return true; });
    else if (pre("llvm.memset")) reg({nm}, [=, this](std::vector<Val>& a, Val*) { uint64_t n = C(a[2]); if (n) setMem(C(a[0]), a[1], n); return true; });
    else if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.prefetch") || pre("llvm.donothing") || pre("llvm.stackrestore") || pre("llvm.invariant") || pre("llvm.va_start") || pre("llvm.va_end")) reg({nm}, [=](std::vector<Val>& a, Val* r) { return true; });
    else if (pre("llvm.stacksave")) reg({nm}, [=](std::vector<Val>& a, Val* r) { r[0] = {0, nullptr}; return true; });
    else if (pre("llvm.trap") || pre("llvm.debugtrap") || pre("llvm.ubsantrap")) reg({nm}, [=, this](std::vector<Val>& a, Val*) -> bool { violate("abort", "trap"); });
    else if (pre("llvm.expect") || pre("llvm.launder") || pre("llvm.strip.inv")) reg({nm}, [=](std::vector<Val>& a, Val* r) { r[0] = a[0]; return true; });
    else if (pre("llvm.is.constant")) reg({nm}, [=](std::vector<Val>& a, Val* r) { r[0] = {0, nullptr}; return true; });
    else if (pre("llvm.objectsize")) reg({nm}, [=](std::vector<Val>& a, Val* r) { r[0] = {a[1].c ? 0 : ~0ULL, nullptr}; return true; });
    else if (pre("llvm.eh.typeid.for")) reg({nm}, [=, this](std::vector<Val>& a, Val* r) { r[0] = {(uint64_t)typeIndex(a[0].c), nullptr}; return true; });
    else if (pre("llvm.fabs") || pre("llvm.sqrt") || pre("llvm.floor") || pre("llvm.ceil") || pre("llvm.trunc") || pre("llvm.round") || pre("llvm.rint") || pre("llvm.nearbyint") || pre("llvm.sin") || pre("llvm.cos") || pre("llvm.exp") || pre("llvm.log")) {
      std::string b = n.substr(5); b = b.substr(0, b.find('.')); if (b == "roundeven") b = "rint";
      reg({nm}, [=, this](std::vector<Val>& a, Val* r) { r[0] = libm1(b, a[0]); return true; });
    } else if (pre("llvm.pow.") || pre("llvm.copysign")) { std::string b = pre("llvm.pow") ? "pow" : "copysign"; reg({nm}, [=, this](std::vector<Val>& a, Val* r) { r[0] = libm2(b, a[0], a[1]); return true; }); }
    else if (pre("llvm.maxnum") || pre("llvm.minnum")) { std::string b = pre("llvm.maxnum") ? "fmax" : "fmin"; reg({nm}, [=, this](std::vector<Val>& a, Val* r) { r[0] = libm2(b, a[0], a[1]); return true; }); }
    else if (pre("llvm.fmuladd")) reg({nm}, [=, this](std::vector<Val>& a, Val* r) { r[0] = fpbin(Instruction::FAdd, fpbin(Instruction::FMul, a[0], a[1], L_DBL), a[2], L_DBL); return true; });
    else if (pre("llvm.powi")) reg({nm}, [=, this](std::vector<Val>& a, Val* r) { r[0] = libm2("pow", a[0], Val{asU((double)sx(a[1].c, 32)), nullptr}); return true; });
    else if (pre("llvm.is.fpclass")) reg({nm}, [=, this](std::vector<Val>& a, Val* r) {
      unsigned t = a[1].c;
      if (!a[0].e) { double d = asD(a[0].c); unsigned c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : std::fpclassify(d) == FP_SUBNORMAL ? (d < 0 ? 16 : 128) : (d < 0 ? 8 : 256); r[0] = {(c & t) != 0, nullptr}; return true; }
      Expr* e = a[0].e; 
      if (t == 3) r[0] = fromE(mkUn(K::FIsNan, e)); else if (t == 516) r[0] = fromE(mkUn(K::FIsInf, e)); else if (t == 504) r[0] = fromE(mkNot(mkOr(mkUn(K::FIsNan, e), mkUn(K::FIsInf, e)))); else cut("unsupported: fpclass");
      return true; });
    else if (pre("llvm.smax") || pre("llvm.smin") || pre("llvm.umax") || pre("llvm.umin")) {
      unsigned p = pre("llvm.smax") ? CmpInst::ICMP_SGT : pre("llvm.smin") ? CmpInst::ICMP_SLT : pre("llvm.umax") ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
      reg({nm}, [=, this](std::vector<Val>& a, Val* r) { Val c = icmp(p, a[0], a[1], L_INT, w); if (!c.e) r[0] = c.c ? a[0] : a[1]; else r[0] = fromE(mkIte(c.e, toE(a[0], L_INT, w), toE(a[1], L_INT, w))); return true; });
    } else if (pre("llvm.abs")) reg({nm}, [=, this](std::vector<Val>& a, Val* r) { Val z{0, nullptr}; Val c = icmp(CmpInst::ICMP_SLT, a[0], z, L_INT, w); Val n = binop(Instruction::Sub, z, a[0], L_INT, w, false, false); if (!c.e) r[0] = c.c ? n : a[0]; else r[0] = fromE(mkIte(c.e, toE(n, L_INT, w), toE(a[0], L_INT, w))); return true; });
    else if (pre("llvm.umul.with.overflow") || pre("llvm.uadd.with.overflow") || pre("llvm.usub.with.overflow") || pre("llvm.sadd.with.overflow") || pre("llvm.ssub.with.overflow") || pre("llvm.smul.with.overflow")) {
      bool sg = n[5] == 's'; K k = n.substr(6, 3) == "mul" ? K::Mul : n.substr(6, 3) == "add" ? K::Add : K::Sub;
      reg({nm}, [=, this](std::vector<Val>& a, Val* r) {
        unsigned ww = w * 2 > 128 ? 128 : w * 2; Expr *x = toE(a[0], L_INT, w), *y = toE(a[1], L_INT, w);
        Expr* s = mkBin(k, x, y); Expr* wide = sg ? mkBin(k, mkSExt(x, ww), mkSExt(y, ww)) : mkBin(k, mkZExt(x, ww), mkZExt(y, ww));
        Expr* ov = mkNot(mkEq(wide, sg ? mkSExt(s, ww) : mkZExt(s, ww))); r[0] = fromE(s); r[1] = fromE(ov); return true; });
    } else if (pre("llvm.ctpop") || pre("llvm.ctlz") || pre("llvm.cttz") || pre("llvm.bswap")) {
      std::string b = n.substr(5, n.find('.', 5) - 5);
      reg({nm}, [=, this](std::vector<Val>& a, Val* r) {
        if (a[0].e) { // small symbolic support through ite chains
          Expr* x = a[0].e; unsigned W = x->w; Expr* res = mkConst(0, W);
          if (b == "ctpop") { for (unsigned i = 0; i < W; i++) res = mkBin(K::Add, res, mkZExt(mkExtract(x, i, 1), W)); }
          else if (b == "ctlz") { res = mkConst(W, W); for (unsigned i = 0; i < W; i++) res = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(W - 1 - i, W), res); }
          else if (b == "cttz") { res = mkConst(W, W); for (int i = W - 1; i >= 0; i--) res = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, W), res); }
          else { Expr* t = nullptr; for (unsigned i = 0; i < W / 8; i++) { Expr* by = mkExtract(x, 8 * i, 8); t = t ? mkConcat(t, by) : by; } res = t; }
          r[0] = fromE(res); return true;
        }
        uint64_t x = a[0].c; if (b == "ctpop") x = __builtin_popcountll(x); else if (b == "ctlz") x = x ? __builtin_clzll(x) - (64 - w) : w; else if (b == "cttz") x = x ? __builtin_ctzll(x) : w; else x = __builtin_bswap64(x) >> (64 - w);
        r[0] = {x, nullptr}; return true; });
    } else if (pre("llvm.fshl") || pre("llvm.fshr")) {
      bool l = pre("llvm.fshl");
      reg({nm}, [=, this](std::vector<Val>& a, Val* r) {
        uint64_t s = C(a[2], w) % w; if (!s) { r[0] = l ? a[0] : a[1]; return true; }
        unsigned ls = l ? s : w - s; Val hi = binop(Instruction::Shl, a[0], Val{ls, nullptr}, L_INT, w, false, false), lo = binop(Instruction::LShr, a[1], Val{w - ls, nullptr}, L_INT, w, false, false);
        r[0] = binop(Instruction::Or, hi, lo, L_INT, w, false, false); return true; });
    } else if (pre("llvm.uadd.sat") || pre("llvm.usub.sat")) {
      bool add = pre("llvm.uadd");
      reg({nm}, [=, this](std::vector<Val>& a, Val* r) {
        Val s = binop(add ? Instruction::Add : Instruction::Sub, a[0], a[1], L_INT, w, false, false);
        Val c = add ? icmp(CmpInst::ICMP_ULT, s, a[0], L_INT, w) : icmp(CmpInst::ICMP_ULT, a[0], a[1], L_INT, w); Val lim{add ? m64(w) : 0, nullptr};
        if (!c.e) r[0] = c.c ? lim : s; else r[0] = fromE(mkIte(c.e, toE(lim, L_INT, w), toE(s, L_INT, w))); return true; });
    }
  }
}
