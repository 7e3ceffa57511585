#include "exec.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>
using namespace llvm;

double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
uint64_t asU(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

enum { OP_FUSE_BASE = 200, OP_EXT = 201 };

Exec::Exec(Module* m, Solver& s, Options o) : M(m), DL(&m->getDataLayout()), S(s), opt(o) {
  registerExts();
  layoutGlobals();
}
void* Exec::bump(size_t n) {
  const size_t CH = 1 << 20;
  n = (n + 15) & ~size_t(15);
  if (n > CH) { char* c = (char*)malloc(n); bigs.push_back(c); return c; }
  if (chunkIdx >= chunks.size() || chunkPos + n > CH) {
    if (chunkIdx < chunks.size()) chunkIdx++;
    chunkPos = 0;
    while (chunkIdx >= chunks.size()) chunks.push_back((char*)malloc(CH));
  }
  void* p = chunks[chunkIdx] + chunkPos; chunkPos += n; return p;
}
uint32_t Exec::newObj(uint64_t size, uint8_t kind, bool zero) {
  Obj o; o.size = size; o.data = (uint8_t*)bump(size ? size : 1); o.sym = nullptr; o.nsym = 0; o.alive = 1; o.ro = 0; o.kind = kind; o.hidden = 0; o.fn = nullptr; o.owner = cur;
  memset(o.data, zero ? 0 : 0xCB, size);
  objs.push_back(o);
  return objs.size() - 1;
}
// ---------------------------------------------------------------- memory
Obj* Exec::find(uint64_t addr, uint64_t n, uint64_t& off, bool write, const char* what) {
  uint64_t id = addr >> 32; int64_t o = (int64_t)(addr & 0xffffffffu) - 0x1000;
  if (id == 0 || id >= objs.size()) violate("memory-error", std::string(id == 0 ? "null pointer " : "wild pointer ") + what);
  Obj& ob = objs[id];
  if (!ob.alive) violate("memory-error", std::string("use after free/scope: ") + what);
  if (o < 0 || (uint64_t)o + n > ob.size) violate("memory-error", std::string("out of bounds ") + what + " (offset " + std::to_string(o) + ", " + std::to_string(n) + " bytes, object of " + std::to_string(ob.size) + ")");
  if (write && ob.ro) violate("memory-error", std::string("write to constant memory: ") + what);
  if (tracking) access(addr, n, write);
  off = o; return &ob;
}
void Exec::clearSym(Obj& o, uint64_t off, uint64_t n) {
  if (!o.nsym) return;
  for (uint64_t i = off; i < off + n; i++) if (o.sym[i].e) { o.sym[i].e = nullptr; o.nsym--; }
}
static Expr* leafConv(Expr* e, const Leaf& l) {
  switch (l.k) {
    case L_DBL: if (e->s == S::BV) return mkFFromBits(e); return e;
    case L_INT:
      if (e->s == S::FP || e->s == S::Real) e = mkFBits(e);
      if (l.w == 1) return e->s == S::Bool ? e : mkNot(mkEq(mkExtract(e, 0, 1), mkConst(0, 1)));
      if (e->s == S::Bool) return boolToBV(e, l.w);
      return e->w == l.w ? e : mkExtract(e, 0, l.w);
    case L_PTR: if (e->s == S::FP || e->s == S::Real) e = mkFBits(e); return e;
    default: return e;
  }
}
Val Exec::fromE(Expr* e) {
  if (e->isConst()) {
    if (e->s == S::FP || e->s == S::Real) return {asU(e->d), nullptr};
    if (e->w <= 64) return {(uint64_t)e->c, nullptr};
  }
  return {0, e};
}
Val Exec::loadLeaf(uint64_t addr, const Leaf& l) {
  uint64_t off; Obj* o = find(addr, l.bytes, off, false, "read");
  bool anysym = false;
  if (o->nsym) for (unsigned i = 0; i < l.bytes; i++) if (o->sym[off + i].e) { anysym = true; break; }
  if (!anysym) {
    if (l.k == L_X80) { long double x; memcpy(&x, o->data + off, 10); double d = (double)x; return {asU(d), nullptr}; }
    if (l.bytes <= 8) { uint64_t v = 0; memcpy(&v, o->data + off, l.bytes); if (l.k == L_INT) v &= m64(l.w); return {v, nullptr}; }
    u128 v = 0; memcpy(&v, o->data + off, l.bytes); return {0, mkConst(v, l.w)};
  }
  SymB& f = o->sym[off];
  if (f.e && f.i == 0 && f.n == l.bytes) {
    bool whole = true;
    for (unsigned i = 1; i < l.bytes && whole; i++) { SymB& b = o->sym[off + i]; whole = b.e == f.e && b.i == i && b.n == f.n; }
    if (whole) return fromE(leafConv(f.e, l));
  }
  Expr* r = nullptr;
  for (int i = (int)l.bytes - 1; i >= 0; i--) {
    SymB& b = o->sym[off + i]; Expr* x;
    if (b.e) {
      Expr* e = b.e;
      if (e->s == S::Real) cut("unsupported: byte access to a real-valued double");
      if (e->s == S::FP) e = mkFBits(e);
      x = mkExtract(e, 8 * b.i, 8);
    } else x = mkConst(o->data[off + i], 8);
    r = r ? mkConcat(r, x) : x;
  }
  Leaf q = l;
  if (l.k == L_DBL) return fromE(mkFFromBits(r));
  if (l.k == L_FLT || l.k == L_X80) cut("unsupported: symbolic float/long double");
  return fromE(leafConv(r, q));
}
void Exec::storeLeaf(uint64_t addr, const Leaf& l, Val v) {
  uint64_t off; Obj* o = find(addr, l.bytes, off, true, "write");
  if (mergeDepth) {
    Undo u; u.id = addr >> 32; u.off = off; u.l = l; memcpy(u.data, o->data + off, l.bytes); u.hadSym = false;
    for (unsigned i = 0; i < l.bytes; i++) { if (o->sym) { u.sym[i] = o->sym[off + i]; if (u.sym[i].e) u.hadSym = true; } else u.sym[i].e = nullptr; }
    undo.push_back(u);
  }
  if (!v.e || (v.e->isConst() && l.bytes > 8)) {
    clearSym(*o, off, l.bytes);
    if (l.k == L_X80) { long double x = asD(v.c); memset(o->data + off, 0, l.bytes); memcpy(o->data + off, &x, 10); return; }
    if (v.e) { u128 c = v.e->c; memcpy(o->data + off, &c, l.bytes); } else memcpy(o->data + off, &v.c, l.bytes);
    return;
  }
  Expr* e = v.e;
  if (l.k == L_X80) cut("unsupported: symbolic long double");
  if (e->s == S::Bool) e = boolToBV(e, 8 * l.bytes);
  else if (e->s == S::BV && e->w != 8u * l.bytes) e = mkZExt(e, 8 * l.bytes);
  if (e->isConst()) { Val c = fromE(e); storeLeaf(addr, l, c); return; }
  if (e->k == K::FBits) e = e->a[0];
  if (!o->sym) { o->sym = (SymB*)bump(sizeof(SymB) * o->size); memset(o->sym, 0, sizeof(SymB) * o->size); }
  for (unsigned i = 0; i < l.bytes; i++) { SymB& b = o->sym[off + i]; if (!b.e) o->nsym++; b.e = e; b.i = i; b.n = l.bytes; }
}
void Exec::copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  if (mergeDepth) throw MergeFail();
  uint64_t so, dof; find(s, n, so, false, "read (block copy)"); find(d, n, dof, true, "write (block copy)");
  Obj* a = &objs[s >> 32]; Obj* b = &objs[d >> 32];
  memmove(b->data + dof, a->data + so, n);
  if (a->nsym == 0) { clearSym(*b, dof, n); return; }
  std::vector<SymB> t(a->sym + so, a->sym + so + n);
  if (!b->sym) { bool any = false; for (auto& x : t) if (x.e) any = true; if (!any) return; b->sym = (SymB*)bump(sizeof(SymB) * b->size); memset(b->sym, 0, sizeof(SymB) * b->size); }
  for (uint64_t i = 0; i < n; i++) { SymB& x = b->sym[dof + i]; if (x.e) b->nsym--; x = t[i]; if (x.e) b->nsym++; }
}
void Exec::setMem(uint64_t d, Val v, uint64_t n) {
  if (!n) return;
  if (mergeDepth) throw MergeFail();
  if (v.e) { Leaf l{0, L_INT, 8, 1}; for (uint64_t i = 0; i < n; i++) storeLeaf(d + i, l, v); return; }
  uint64_t off; Obj* o = find(d, n, off, true, "write (fill)");
  clearSym(*o, off, n); memset(o->data + off, (int)(v.c & 255), n);
}
uint64_t Exec::rd(uint64_t addr, unsigned n) {
  Leaf l{0, L_INT, (uint16_t)(8 * n), (uint16_t)n}; Val v = loadLeaf(addr, l);
  return v.e ? concretize(v, 8 * n) : v.c;
}
void Exec::wr(uint64_t addr, unsigned n, uint64_t v) { Leaf l{0, L_INT, (uint16_t)(8 * n), (uint16_t)n}; storeLeaf(addr, l, {v, nullptr}); }
std::string Exec::rdStr(uint64_t a) { std::string s; for (int i = 0; i < 4096; i++) { char c = (char)rd(a + i, 1); if (!c) break; s += c; } return s; }

// ---------------------------------------------------------------- compile
void Exec::leavesOf(Type* T, std::vector<Leaf>& out, uint32_t off) {
  if (auto* it = dyn_cast<IntegerType>(T)) { unsigned w = it->getBitWidth(); out.push_back({off, L_INT, (uint16_t)w, (uint16_t)DL->getTypeStoreSize(T)}); return; }
  if (T->isPointerTy()) { out.push_back({off, L_PTR, 64, 8}); return; }
  if (T->isDoubleTy()) { out.push_back({off, L_DBL, 64, 8}); return; }
  if (T->isFloatTy()) { out.push_back({off, L_FLT, 32, 4}); return; }
  if (T->isX86_FP80Ty()) { out.push_back({off, L_X80, 80, 16}); return; }
  if (auto* st = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), out, off + sl->getElementOffset(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), out, off + i * es); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(T)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), out, off + i * es); return; }
  if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return;
  std::string s; raw_string_ostream os(s); T->print(os); fprintf(stderr, "type %s unsupported\n", s.c_str()); abort();
}
std::vector<Leaf>* Exec::leaves(Type* T) {
  auto& p = leafCache[T]; if (!p) { p = new std::vector<Leaf>; leavesOf(T, *p, 0); } return p;
}
unsigned Exec::slotsOf(Type* T) { return leaves(T)->size(); }

static Constant* aggElem(const Constant* C, unsigned i) { return C->getAggregateElement(i); }
void Exec::constVals(const Constant* C, std::vector<Val>& out) {
  Type* T = C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() <= 64) out.push_back({ci->getZExtValue(), nullptr});
    else { u128 v = ci->getValue().getRawData()[0]; if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64; out.push_back({0, mkConst(v, ci->getBitWidth())}); }
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) {
    if (T->isDoubleTy()) out.push_back({asU(cf->getValueAPF().convertToDouble()), nullptr});
    else if (T->isFloatTy()) { float f = cf->getValueAPF().convertToFloat(); uint32_t u; memcpy(&u, &f, 4); out.push_back({u, nullptr}); }
    else { bool li; APFloat a = cf->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back({asU(a.convertToDouble()), nullptr}); }
    return;
  }
  if (isa<ConstantPointerNull>(C)) { out.push_back({0, nullptr}); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    for (auto& l : *leaves(T)) if (l.w > 64 && l.k == L_INT) out.push_back({0, mkConst(0, l.w)}); else out.push_back({0, nullptr});
    return;
  }
  if (auto* gv = dyn_cast<GlobalValue>(C)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) { constVals(ga->getAliasee(), out); return; }
    auto it = gaddr.find(gv); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); abort(); }
    out.push_back({it->second, nullptr}); return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    std::vector<Val> a; 
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce); APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) break;
        constVals(cast<Constant>(gep->getPointerOperand()), a);
        out.push_back({a[0].c + off.getZExtValue(), nullptr}); return;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        constVals(ce->getOperand(0), a);
        uint64_t v = a[0].c; if (T->isIntegerTy()) v &= m64(T->getIntegerBitWidth());
        out.push_back({v, nullptr}); return;
      }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: {
        constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), a);
        uint64_t x = a[0].c, y = a[1].c, r = 0;
        switch (ce->getOpcode()) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; default: r = y < 64 ? x << y : 0; }
        out.push_back({r & m64(T->getIntegerBitWidth()), nullptr}); return;
      }
      case Instruction::Trunc: { constVals(ce->getOperand(0), a); out.push_back({a[0].c & m64(T->getIntegerBitWidth()), nullptr}); return; }
      case Instruction::ICmp: {
        constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), a);
        bool r = false; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a[0].c == a[1].c; break; case CmpInst::ICMP_NE: r = a[0].c != a[1].c; break; case CmpInst::ICMP_ULT: r = a[0].c < a[1].c; break; case CmpInst::ICMP_UGT: r = a[0].c > a[1].c; break; default: abort(); }
        out.push_back({r, nullptr}); return;
      }
      default: break;
    }
    std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "constexpr unsupported: %s\n", s.c_str()); abort();
  }
  if (T->isAggregateType() || T->isVectorTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) constVals(aggElem(C, i), out);
    return;
  }
  std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "constant unsupported: %s\n", s.c_str()); abort();
}
void Exec::writeConst(uint64_t addr, const Constant* C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  std::vector<Val> v; constVals(C, v);
  auto& ls = *leaves(C->getType());
  for (size_t i = 0; i < ls.size(); i++) storeLeaf(addr + ls[i].off, ls[i], v[i]);
}
static std::vector<Obj> initObjs; 
void Exec::layoutGlobals() {
  objs.clear(); objs.push_back(Obj{}); objs[0].alive = 0; objs[0].size = 0;
  for (Function& F : *M) {
    if (F.isIntrinsic()) continue;
    uint32_t id = newObj(1, 3, true); objs[id].ro = 1; gaddr[&F] = baseOf(id);
  }
  for (GlobalVariable& G : M->globals()) {
    uint64_t sz = DL->getTypeAllocSize(G.getValueType());
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 512);
    uint32_t id = newObj(sz, 0, true); gaddr[&G] = baseOf(id);
    if (G.getName().starts_with("_ZTI")) tiOfAddr[baseOf(id)] = &G;
    gvars.push_back({&G, baseOf(id)});
  }
  // external stream objects get an all-zero "vtable" so that virtual-base offsets read as 0
  uint32_t dv = newObj(1024, 0, true); uint64_t dummyV = baseOf(dv) + 512;
  for (auto& g : gvars) {
    if (g.first->hasInitializer()) writeConst(g.second, g.first->getInitializer());
    else { StringRef n = g.first->getName(); if (n == "_ZSt4cout" || n == "_ZSt4cerr" || n == "_ZSt3cin" || n == "_ZSt4clog") wr(g.second, 8, dummyV); }
  }
  for (auto& g : gvars) if (g.first->isConstant()) objs[g.second >> 32].ro = 1;
  for (Function& F : *M) if (!F.isIntrinsic()) objs[gaddr[&F] >> 32].fn = getFn(&F);
  initObjs = objs; nInit = objs.size();
  // keep these images: further allocations go to later chunks
  for (auto& o : initObjs) if (o.size) { uint8_t* d = (uint8_t*)malloc(o.size); memcpy(d, o.data, o.size); o.data = d; }
  chunkIdx = 0; chunkPos = 0;
}
Fn* Exec::getFn(const Function* F) {
  auto& p = fns[F];
  if (!p) {
    p = new Fn; p->F = const_cast<Function*>(F); p->name = F->getName().str();
    auto it = extIdx.find(p->name); if (it != extIdx.end()) p->ext = it->second;
    p->shim = p->name.find("5boost4shim") != std::string::npos || p->name.find("5boost5mutex") != std::string::npos || p->name.find("5boost18condition_variable") != std::string::npos || p->name.find("N5boost6thread") != std::string::npos || p->name.find("5boost11this_thread") != std::string::npos || p->name.find("5boost15recursive_mutex") != std::string::npos;
    p->isRepo = p->name.find("k52") != std::string::npos && !F->isDeclaration();
  }
  return p;
}
int Exec::operand(Fn* f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { int i = f->consts.size(); constVals(c, f->consts); return -(i + 1); }
  auto it = f->slot.find(v); if (it == f->slot.end()) { std::string s; raw_string_ostream os(s); v->print(os); fprintf(stderr, "no slot: %s in %s\n", s.c_str(), f->name.c_str()); abort(); }
  return it->second;
}
static LK lkOf(Type* T) { if (T->isVectorTy()) T = cast<VectorType>(T)->getElementType(); return T->isPointerTy() ? L_PTR : T->isDoubleTy() ? L_DBL : T->isFloatTy() ? L_FLT : T->isX86_FP80Ty() ? L_X80 : L_INT; }
static unsigned wOf(Type* T) { if (T->isVectorTy()) T = cast<VectorType>(T)->getElementType(); return T->isIntegerTy() ? T->getIntegerBitWidth() : T->isFloatTy() ? 32 : 64; }

void Exec::compile(Fn* f) {
  f->compiled = true; Function& F = *f->F;
  int n = 0;
  for (Argument& A : F.args()) { f->slot[&A] = n; n += slotsOf(A.getType()); }
  f->nargs = n;
  for (BasicBlock& B : F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) { f->slot[&I] = n; n += slotsOf(I.getType()); }
  f->nslots = n;
  struct Fix { int edge; const BasicBlock* to; }; std::vector<Fix> fix;
  auto mkEdge = [&](BasicBlock* from, BasicBlock* to) {
    Edge e; e.target = -1;
    for (PHINode& P : to->phis()) {
      int d = f->slot[&P], s = operand(f, P.getIncomingValueForBlock(from)); unsigned k = slotsOf(P.getType());
      for (unsigned i = 0; i < k; i++) e.moves.push_back({d + (int)i, s >= 0 ? s + (int)i : s - (int)i});
    }
    f->edges.push_back(e); fix.push_back({(int)f->edges.size() - 1, to}); return (int)f->edges.size() - 1;
  };
  for (BasicBlock& B : F) {
    f->bbStart[&B] = f->code.size();
    for (Instruction& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      Ins in; memset(&in, 0, sizeof in); in.op = I.getOpcode(); in.I = &I; in.dst = I.getType()->isVoidTy() ? -1 : f->slot[&I];
      in.k = lkOf(I.getType()); in.w = I.getType()->isVoidTy() ? 0 : wOf(I.getType());
      in.n = I.getType()->isVoidTy() ? 0 : slotsOf(I.getType());
      switch (I.getOpcode()) {
        case Instruction::Ret: if (I.getNumOperands()) { in.a = operand(f, I.getOperand(0)); in.n = slotsOf(I.getOperand(0)->getType()); } else in.n = 0; break;
        case Instruction::Br: {
          auto& br = cast<BranchInst>(I);
          if (br.isConditional()) { in.n = 2; in.a = operand(f, br.getCondition()); in.b = mkEdge(&B, br.getSuccessor(0)); in.c = mkEdge(&B, br.getSuccessor(1)); }
          else { in.n = 1; in.b = mkEdge(&B, br.getSuccessor(0)); }
          break;
        }
        case Instruction::Switch: {
          auto& sw = cast<SwitchInst>(I); in.a = operand(f, sw.getCondition()); in.w = wOf(sw.getCondition()->getType());
          in.b = mkEdge(&B, sw.getDefaultDest()); in.n = sw.getNumCases(); in.ops = new int[in.n + 1];
          auto* vals = new uint64_t[in.n + 1]; in.p = vals; unsigned i = 0;
          for (auto& c : sw.cases()) { vals[i] = c.getCaseValue()->getZExtValue(); in.ops[i++] = mkEdge(&B, c.getCaseSuccessor()); }
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto& cb = cast<CallBase>(I);
          std::vector<int> ops;
          for (auto& A : cb.args()) {
            if (A->getType()->isMetadataTy()) continue;
            int o = operand(f, A); unsigned k = slotsOf(A->getType());
            for (unsigned i = 0; i < k; i++) ops.push_back(o >= 0 ? o + (int)i : o - (int)i);
          }
          in.w2 = ops.size(); in.ops = new int[ops.size() + 1]; std::copy(ops.begin(), ops.end(), in.ops);
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { in.b = mkEdge(&B, iv->getNormalDest()); in.c = mkEdge(&B, iv->getUnwindDest()); }
          Value* cv = cb.getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
          if (auto* cf = dyn_cast<Function>(cv)) in.p = getFn(cf); 
          else if (isa<InlineAsm>(cv)) { in.p = nullptr; in.imm = 1; }
          else in.a = operand(f, cb.getCalledOperand());
          break;
        }
        case Instruction::Resume: in.a = operand(f, I.getOperand(0)); break;
        case Instruction::Unreachable: break;
        case Instruction::LandingPad: break;
        case Instruction::FNeg: case Instruction::Freeze: in.a = operand(f, I.getOperand(0)); break;
        case Instruction::Alloca: {
          auto& al = cast<AllocaInst>(I); in.imm = DL->getTypeAllocSize(al.getAllocatedType());
          in.a = operand(f, al.getArraySize()); break;
        }
        case Instruction::Load: in.a = operand(f, I.getOperand(0)); in.leaves = leaves(I.getType()); break;
        case Instruction::Store: in.a = operand(f, I.getOperand(0)); in.b = operand(f, I.getOperand(1)); in.leaves = leaves(I.getOperand(0)->getType()); break;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); in.a = operand(f, r.getPointerOperand()); in.b = operand(f, r.getValOperand()); in.imm = r.getOperation(); in.leaves = leaves(I.getType()); break; }
        case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(I); in.a = operand(f, r.getPointerOperand()); in.b = operand(f, r.getCompareOperand()); in.c = operand(f, r.getNewValOperand()); in.leaves = leaves(r.getCompareOperand()->getType()); break; }
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(I); in.a = operand(f, g.getPointerOperand()); int64_t off = 0; std::vector<std::pair<int, int64_t>> vs; 
          std::vector<unsigned> ws;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value* idx = it.getOperand();
            if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
            int64_t es = it.getSequentialElementStride(*DL);
            if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * es;
            else { vs.push_back({operand(f, idx), es}); ws.push_back(wOf(idx->getType())); }
          }
          in.imm = off; in.n = vs.size(); 
          in.ops = new int[vs.size() * 2 + 1]; auto* sc = new int64_t[vs.size() + 1]; in.p = sc;
          for (size_t i = 0; i < vs.size(); i++) { in.ops[2 * i] = vs[i].first; in.ops[2 * i + 1] = ws[i]; sc[i] = vs[i].second; }
          break;
        }
        case Instruction::ICmp: case Instruction::FCmp: in.a = operand(f, I.getOperand(0)); in.b = operand(f, I.getOperand(1)); in.k2 = lkOf(I.getOperand(0)->getType()); in.w2 = wOf(I.getOperand(0)->getType()); in.imm = cast<CmpInst>(I).getPredicate(); break;
        case Instruction::Select: in.a = operand(f, I.getOperand(0)); in.b = operand(f, I.getOperand(1)); in.c = operand(f, I.getOperand(2)); in.leaves = leaves(I.getType()); in.imm = I.getOperand(0)->getType()->isVectorTy(); break;
        case Instruction::ExtractValue: case Instruction::InsertValue: {
          Type* T = I.getOperand(0)->getType(); auto idxs = I.getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
          unsigned so = 0;
          for (unsigned ix : idxs) {
            if (auto* st = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ix; i++) so += slotsOf(st->getElementType(i)); T = st->getElementType(ix); }
            else { T = cast<ArrayType>(T)->getElementType(); so += ix * slotsOf(T); }
          }
          in.a = operand(f, I.getOperand(0)); in.imm = so; in.w2 = slotsOf(T);
          if (I.getOpcode() == Instruction::InsertValue) in.b = operand(f, I.getOperand(1));
          break;
        }
        case Instruction::ExtractElement: in.a = operand(f, I.getOperand(0)); in.b = operand(f, I.getOperand(1)); break;
        case Instruction::InsertElement: in.a = operand(f, I.getOperand(0)); in.b = operand(f, I.getOperand(1)); in.c = operand(f, I.getOperand(2)); break;
        case Instruction::ShuffleVector: {
          auto& sv = cast<ShuffleVectorInst>(I); in.a = operand(f, I.getOperand(0)); in.b = operand(f, I.getOperand(1)); in.ops = new int[in.n];
          in.w2 = slotsOf(I.getOperand(0)->getType());
          for (unsigned i = 0; i < in.n; i++) in.ops[i] = sv.getMaskValue(i); break;
        }
        default:
          if (I.isBinaryOp()) {
            in.a = operand(f, I.getOperand(0)); in.b = operand(f, I.getOperand(1));
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) in.imm = (ob->hasNoSignedWrap() ? 1 : 0) | (ob->hasNoUnsignedWrap() ? 2 : 0);
          } else if (I.isCast()) { in.a = operand(f, I.getOperand(0)); in.k2 = lkOf(I.getOperand(0)->getType()); in.w2 = wOf(I.getOperand(0)->getType()); if (I.getOpcode() == Instruction::BitCast && slotsOf(I.getOperand(0)->getType()) != in.n) in.imm = -1; }
          else in.op = 255;
      }
      f->code.push_back(in);
    }
  }
  for (auto& x : fix) f->edges[x.edge].target = f->bbStart[x.to];
}

// ---------------------------------------------------------------- path control
std::string Exec::where() {
  std::string s; if (th.empty()) return s;
  auto& st = th[cur]->st; int n = 0;
  for (int i = (int)st.size() - 1; i >= 0 && n < 6; i--) {
    std::string d = demangle(st[i].fn->name); 
    if (d.size() > 160) d = d.substr(0, 160);
    std::string loc;
    if (st[i].pc < (int)st[i].fn->code.size() && st[i].fn->code[st[i].pc].I) if (auto dl = st[i].fn->code[st[i].pc].I->getDebugLoc()) loc = ":" + std::to_string(dl.getLine());
    s += (n ? " < " : "") + d + loc; n++;
  }
  return s;
}
void Exec::cut(const std::string& why) { if (mergeDepth) throw MergeFail(); throw PathResult{End::Cut, why, pathInstr}; }
void Exec::report(const std::string& kind, const std::string& msg, Expr* extra) {
  if (mergeDepth) throw MergeFail();
  Violation v; v.kind = kind; v.msg = msg; v.where = where();
  v.key = kind + "|" + msg;
  S.leftMs = std::max(S.leftMs, 10000u);
  Solver::Model m = S.model(pc, extra);
  if (!m.ok) { unknownAsserts["no model for: " + msg]++; assertUnknown++; return; }
  v.witness = witnessJson(m); S.freeModel(m);
  violations.push_back(v);
}
void Exec::violate(const std::string& kind, const std::string& msg) {
  report(kind, msg, nullptr);
  throw PathResult{End::Violation, kind + ": " + msg, pathInstr};
}
void Exec::checkTime() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t); double n = t.tv_sec + t.tv_nsec * 1e-9;
  if (n > deadline) throw PathResult{End::Cut, "time limit", pathInstr};
  S.leftMs = deadline - n < 1e6 ? (unsigned)((deadline - n) * 1000) + 50 : 1000000000u;
}
bool Exec::feasible(Expr* c) {
  if (c->isConst()) return c->c;
  checkTime();
  Res r = S.check(pc, c, nullptr, opt.feasMs);
  if (r == Res::Unknown) feasUnknown++;
  return r != Res::Unsat;
}
void Exec::addPC(Expr* c) {
  if (c->isConst()) return;
  if (c->k == K::BAnd) { addPC(c->a[0]); addPC(c->a[1]); return; }
  pc.push_back(c);
}
bool Exec::decide(Expr* c) {
  if (c->isConst()) return c->c;
  if (pos < pre->size()) {
    const Decision& d = (*pre)[pos++]; trail.push_back(d);
    if (d.kind != 0) { fprintf(stderr, "replay divergence (branch)\n"); abort(); }
    if (!d.forced) { addPC(d.choice ? c : mkNot(c)); curDecided = true; }
    return d.choice;
  }
  bool t = feasible(c);
  bool f = t ? feasible(mkNot(c)) : true;
  if (t && f && mergeDepth) throw MergeFail();
  Decision d{0, (uint8_t)t, (uint8_t)!(t && f), 0, 0};
  pos++;
  if (t && f) {
    curDecided = true; Prefix alt = trail; alt.push_back({0, 0, 0, 0, 0}); newAlternatives.push_back(alt);
    addPC(c);
  }
  trail.push_back(d);
  return t;
}
unsigned Exec::nway(unsigned n, const char* name) {
  if (n <= 1) return 0;
  if (mergeDepth) throw MergeFail();
  unsigned ch = 0; curDecided = true;
  if (pos < pre->size()) {
    const Decision& d = (*pre)[pos++]; if (d.kind != 2 || d.n != n) { fprintf(stderr, "replay divergence (nway)\n"); abort(); }
    trail.push_back(d); ch = d.choice;
  } else {
    pos++;
    for (unsigned i = n - 1; i >= 1; i--) { Prefix alt = trail; alt.push_back({2, (uint8_t)i, 0, (uint8_t)n, 0}); newAlternatives.push_back(alt); }
    trail.push_back({2, 0, 0, (uint8_t)n, 0});
  }
  Expr* v = mkVar(freshName(name), S::BV, 8); nwayVars.insert(v->var);
  addPC(mkEq(v, mkConst(ch, 8)));
  events.push_back({name, 0, nullptr, ch, 0});
  return ch;
}
uint64_t Exec::concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  Expr* e = v.e; if (e->s == S::Bool) return decide(e) ? 1 : 0;
  if (e->isConst()) return (uint64_t)e->c;
  if (e->s == S::FP || e->s == S::Real) cut("unsupported: concretising a floating-point value");
  for (unsigned i = 0;; i++) {
    if (i > opt.maxConc) cut("too many values for a concretised expression");
    if (pos < pre->size()) {
      const Decision& d = (*pre)[pos++]; if (d.kind != 1) { fprintf(stderr, "replay divergence (conc)\n"); abort(); }
      trail.push_back(d);
      Expr* c = mkEq(e, mkConst(d.val, e->w));
      if (!d.forced) curDecided = true;
      if (d.choice) { if (!d.forced) addPC(c); return d.val; }
      addPC(mkNot(c)); continue;
    }
    std::vector<Expr*> cs = S.slice(pc, varsOf(e)); cs.push_back(mkEq(e, e)->isConst() ? mkBool(true) : mkBool(true));
    Z3_model m = nullptr; Res r = S.checkSet(cs, &m, opt.feasMs);
    if (r != Res::Sat && mergeDepth) throw MergeFail();
    if (r != Res::Sat) { if (r == Res::Unsat) throw PathResult{End::Infeasible, "", pathInstr}; cut("solver gave up while concretising"); }
    u128 cv = 0; double dd; S.evalIn(m, e, cv, dd); Z3_model_dec_ref(S.ctx, m);
    uint64_t val = (uint64_t)cv; Expr* c = mkEq(e, mkConst(val, e->w));
    bool other = feasible(mkNot(c));
    if (other && mergeDepth) throw MergeFail();
    pos++;
    if (other) { curDecided = true; Prefix alt = trail; alt.push_back({1, 0, 0, 0, val}); newAlternatives.push_back(alt); addPC(c); }
    trail.push_back({1, 1, (uint8_t)!other, 0, val});
    return val;
  }
}
void Exec::assume(Expr* c) {
  if (mergeDepth) throw MergeFail();
  if (c->isConst()) { if (!c->c) throw PathResult{End::Infeasible, "", pathInstr}; return; }
  if (pos >= pre->size() && opt.checkFeas && !feasible(c)) throw PathResult{End::Infeasible, "", pathInstr};
  addPC(c);
}
void Exec::assertProp(Expr* c, const std::string& msg, Expr* strong) {
  if (mergeDepth) throw MergeFail();
  auto& as = asserts[msg];
  if (c->isConst()) {
    if (c->c) { as.first++; return; }
    violate("assertion", msg);
  }
  if (pos < pre->size()) { // already decided when this prefix was first explored
    const Decision& d = (*pre)[pos++]; trail.push_back(d);
    if (d.kind != 3) { fprintf(stderr, "replay divergence (assert)\n"); abort(); }
    if (d.choice) addPC(c);
    return;
  }
  checkTime();
  Expr* n = mkNot(c);
  Res r = S.check(pc, n, nullptr, opt.queryMs);
  pos++; trail.push_back({3, (uint8_t)(r != Res::Unsat), 1, 0, 0});
  if (r == Res::Unsat) { as.second++; return; }
  if (r == Res::Unknown) { assertUnknown++; unknownAsserts[msg]++; addPC(c); return; }
  if (strong) { Res r2 = S.check(pc, strong, nullptr, opt.feasMs); if (r2 == Res::Sat) n = strong; }
  report("assertion", msg, n);
  if (!feasible(c)) throw PathResult{End::Violation, "assertion: " + msg, pathInstr};
  addPC(c);
}
std::string Exec::freshName(const std::string& n) { unsigned& k = nameCount[n]; return n + "#" + std::to_string(k++); }
std::string Exec::witnessJson(Solver::Model& m) {
  std::string s; char b[64];
  auto ev = [&](std::vector<Event>& es, char tag) {
    for (auto& e : es) {
      u128 c = e.c; double d = e.d;
      if (e.e) S.eval(m, e.e, c, d);
      if (e.kind == 0) {
        int64_t x = (int64_t)(uint64_t)c; if (e.e && e.e->s == S::BV) x = sx((uint64_t)c, e.e->w);
        snprintf(b, sizeof b, "%lld", (long long)x);
        s += std::string(tag == 'I' ? "I " : "O ") + e.name + " " + b + "\n";
      } else { snprintf(b, sizeof b, "%a", d); s += std::string(tag == 'I' ? "D " : "P ") + e.name + " " + b + "\n"; }
    }
  };
  ev(events, 'I'); ev(observes, 'O');
  return s;
}
bool Exec::pathWitness(std::string& out) {
  Solver::Model m = S.model(pc); if (!m.ok) return false;
  out = witnessJson(m); S.freeModel(m); return true;
}

// ---------------------------------------------------------------- merging
// Immediate post-dominators over the normal control flow: unwind edges and blocks that cannot reach a return are left out.
void Exec::computePdom(Fn* f) {
  f->pdomDone = true;
  std::vector<BasicBlock*> bs; std::unordered_map<const BasicBlock*, int> ix;
  for (BasicBlock& B : *f->F) { ix[&B] = bs.size(); bs.push_back(&B); }
  size_t n = bs.size(); if (n > 600) return;
  std::vector<std::vector<int>> succ(n), pred(n);
  for (size_t i = 0; i < n; i++) {
    Instruction* T = bs[i]->getTerminator();
    for (unsigned k = 0; k < T->getNumSuccessors(); k++) {
      BasicBlock* d = T->getSuccessor(k); if (d->isLandingPad()) continue;
      succ[i].push_back(ix[d]); pred[ix[d]].push_back(i);
    }
  }
  std::vector<char> live(n, 0); std::vector<int> q;
  for (size_t i = 0; i < n; i++) if (isa<ReturnInst>(bs[i]->getTerminator())) { live[i] = 1; q.push_back(i); }
  while (!q.empty()) { int x = q.back(); q.pop_back(); for (int p : pred[x]) if (!live[p]) { live[p] = 1; q.push_back(p); } }
  size_t W = (n + 63) / 64; std::vector<std::vector<uint64_t>> pd(n, std::vector<uint64_t>(W, ~0ULL));
  for (bool ch = true; ch;) {
    ch = false;
    for (int i = n - 1; i >= 0; i--) if (live[i]) {
      std::vector<uint64_t> s(W, 0); bool first = true;
      if (!isa<ReturnInst>(bs[i]->getTerminator())) for (int d : succ[i]) if (live[d]) { if (first) s = pd[d]; else for (size_t k = 0; k < W; k++) s[k] &= pd[d][k]; first = false; }
      s[i / 64] |= 1ULL << (i % 64);
      if (s != pd[i]) { pd[i] = s; ch = true; }
    }
  }
  auto cnt = [&](int i) { int c = 0; for (size_t j = 0; j < n; j++) if (live[j] && (pd[i][j / 64] >> (j % 64) & 1)) c++; return c; };
  std::vector<int> c(n, 0); for (size_t i = 0; i < n; i++) if (live[i]) c[i] = cnt(i);
  for (size_t i = 0; i < n; i++) if (live[i]) {
    int best = -1; for (size_t j = 0; j < n; j++) if (j != i && live[j] && (pd[i][j / 64] >> (j % 64) & 1) && c[j] == c[i] - 1) best = j;
    if (best >= 0) {
      bool ok = true; for (int d : succ[i]) if (!live[d]) ok = false;
      // the region between the branch and its join must not lead back to the branch
      std::vector<char> seen(n, 0); std::vector<int> st; for (int d : succ[i]) if (d != best) st.push_back(d);
      int cntb = 0;
      while (!st.empty() && ok) { int x = st.back(); st.pop_back(); if (seen[x] || x == best) continue; seen[x] = 1; if (x == (int)i || ++cntb > 60) { ok = false; break; } for (int d : succ[x]) if (live[d]) st.push_back(d); }
      if (ok) f->ipdom[bs[i]] = bs[best];
    }
  }
}
int Exec::mergeTarget(Fn* f, Ins& in) {
  if (!f->pdomDone) computePdom(f);
  auto it = f->ipdom.find(in.I->getParent()); if (it == f->ipdom.end()) return -1;
  return f->bbStart[it->second];
}
void Exec::rollback(size_t mark) {
  while (undo.size() > mark) {
    Undo& u = undo.back(); Obj& o = objs[u.id];
    memcpy(o.data + u.off, u.data, u.l.bytes);
    if (o.sym) for (unsigned i = 0; i < u.l.bytes; i++) { SymB& b = o.sym[u.off + i]; if (b.e) o.nsym--; b = u.sym[i]; if (b.e) o.nsym++; }
    undo.pop_back();
  }
}
bool Exec::tryMerge(Frame& fr0, Ins& in, Expr* c) {
  Fn* fn = fr0.fn; int tgt = mergeTarget(fn, in); if (tgt < 0) return false;
  Thread* t = th[cur]; size_t depth = t->st.size(); size_t mark = undo.size(), pcMark = pc.size(), objMark = objs.size();
  int sStop = stopPc, sEdge = stopEdge; size_t sFrames = mergeFrames; int sDepth = mergeDepth; uint64_t sLimit = mergeLimit; int pc0 = fr0.pc;
  struct Side { std::vector<Val> phi; std::map<std::pair<uint32_t, uint32_t>, std::pair<Leaf, Val>> mem; } sd[2];
  int edgeA[2] = {in.b, in.c};
  auto restore = [&]() { stopPc = sStop; stopEdge = sEdge; mergeFrames = sFrames; mergeDepth = sDepth; mergeLimit = sLimit; pc.resize(pcMark); };
  try {
    mergeDepth = sDepth + 1; mergeFrames = depth; stopPc = tgt; if (!sDepth) mergeLimit = pathInstr + 20000;
    BasicBlock* J = const_cast<BasicBlock*>(fn->ipdom[in.I->getParent()]);
    std::vector<std::pair<LK, unsigned>> kinds; std::vector<int> dsts;
    for (PHINode& P : J->phis()) { int d = fn->slot[&P], i = 0; for (auto& l : *leaves(P.getType())) { kinds.push_back({l.k, l.w}); dsts.push_back(d + i++); } }
    for (int k = 0; k < 2; k++) {
      pc.resize(pcMark); pc.push_back(k ? mkNot(c) : c);
      int e = edgeA[k];
      if (fn->edges[e].target == tgt) stopEdge = e;
      else { stopEdge = -1; stopPc = tgt; mergeFrames = depth; jump(t->st.back(), e); interp(); if (stopEdge == -1) throw MergeFail(); e = stopEdge; }
      Frame& fr = t->st.back();
      if (e == -2) sd[k].phi = stopPhi;
      else for (auto& m : fn->edges[e].moves) sd[k].phi.push_back(m.src >= 0 ? fr.R[m.src] : fn->consts[-m.src - 1]);
      if (kinds.size() != sd[k].phi.size()) throw MergeFail();
      for (size_t i = mark; i < undo.size(); i++) {
        Undo& u = undo[i]; if (u.id >= objMark || !objs[u.id].alive) continue;
        auto key = std::make_pair(u.id, u.off);
        auto it = sd[k].mem.find(key); if (it != sd[k].mem.end() && (it->second.first.bytes != u.l.bytes || it->second.first.k != u.l.k)) throw MergeFail();
        if (it != sd[k].mem.end()) continue;
        for (auto& q : sd[k].mem) if (q.first.first == u.id && q.first.second < u.off + u.l.bytes && u.off < q.first.second + q.second.first.bytes) throw MergeFail();
        sd[k].mem[key] = {u.l, loadLeaf(baseOf(u.id) + u.off, u.l)};
      }
      rollback(mark); fr.pc = pc0;
    }
    // combine
    auto comb = [&](Val a, Val b, LK k, unsigned w) -> Val {
      if (a.e == b.e && a.c == b.c) return a;
      if (k == L_FLT || k == L_X80 || k == L_PTR) throw MergeFail();
      if (k == L_DBL) {
        if (opt.merge < 2) throw MergeFail();
        if (g_realMode && ((!a.e && !std::isfinite(asD(a.c))) || (!b.e && !std::isfinite(asD(b.c))))) throw MergeFail();
      }
      if (k == L_INT && w > 64) throw MergeFail();
      return fromE(mkIte(c, toE(a, k, w), toE(b, k, w)));
    };
    std::vector<Val> phi;
    for (size_t i = 0; i < kinds.size(); i++) phi.push_back(comb(sd[0].phi[i], sd[1].phi[i], kinds[i].first, kinds[i].second));
    std::map<std::pair<uint32_t, uint32_t>, std::pair<Leaf, Val>> out;
    for (int k = 0; k < 2; k++) for (auto& q : sd[k].mem) {
      if (out.count(q.first)) continue;
      auto& o = sd[1 - k].mem; auto it = o.find(q.first);
      if (it == o.end()) { for (auto& z : o) if (z.first.first == q.first.first && z.first.second < q.first.second + q.second.first.bytes && q.first.second < z.first.second + z.second.first.bytes) throw MergeFail(); }
      else if (it->second.first.bytes != q.second.first.bytes || it->second.first.k != q.second.first.k || it->second.first.w != q.second.first.w) throw MergeFail();
      Val other = it == o.end() ? loadLeaf(baseOf(q.first.first) + q.first.second, q.second.first) : it->second.second;
      Val a = k == 0 ? q.second.second : other, b = k == 0 ? other : q.second.second;
      out[q.first] = {q.second.first, comb(a, b, q.second.first.k, q.second.first.w)};
    }
    restore();
    for (auto& q : out) storeLeaf(baseOf(q.first.first) + q.first.second, q.second.first, q.second.second);
    Frame& fr = t->st.back();
    if (sDepth && tgt == sStop && depth == sFrames) { stopPhi = phi; stopEdge = -2; return true; } // also the join of the enclosing branch
    for (size_t i = 0; i < dsts.size(); i++) fr.R[dsts[i]] = phi[i];
    fr.pc = tgt;
    return true;
  } catch (MergeFail&) {
    rollback(mark); while (t->st.size() > depth) popFrame();
    restore(); t->st.back().pc = pc0; return false;
  }
}
// a conditional branch on a symbolic condition: merge both sides when possible, otherwise fork
bool Exec::branch(Frame& fr, Ins& in, Expr* c) {
  if (c->isConst()) { return false; }
  if (pos < pre->size()) {
    if ((*pre)[pos].kind != 4) return false;
    trail.push_back((*pre)[pos++]);
    if (!tryMerge(fr, in, c)) { fprintf(stderr, "replay divergence (merge)\n"); abort(); }
    return true;
  }
  if (!opt.merge) return false;
  int& bad = mergeBad[in.I]; if (bad >= 3) return false;
  if (mergeTarget(fr.fn, in) < 0) { bad = 99; if (getenv("SYM_MERGE_DEBUG")) fprintf(stderr, "no merge: %s\n", where().c_str()); return false; }
  if (!feasible(c) || !feasible(mkNot(c))) return false; // decide() records the forced outcome (queries are cached)
  size_t mark = trail.size(), pmark = pos; trail.push_back({4, 0, 0, 0, 0}); pos++;
  if (tryMerge(fr, in, c)) { bad = std::min(bad, 0) - 1; if (bad < -1000) bad = -1000; return true; }
  trail.resize(mark); pos = pmark; bad++;
  if (getenv("SYM_MERGE_DEBUG")) fprintf(stderr, "merge failed: %s\n", where().c_str());
  return false;
}

// ---------------------------------------------------------------- values
Expr* Exec::toE(Val v, LK k, unsigned w) {
  if (v.e) return v.e;
  switch (k) { case L_DBL: case L_X80: return mkFP(asD(v.c)); case L_PTR: return mkConst(v.c, 64); case L_FLT: cut("unsupported: symbolic float"); default: return w == 1 ? mkBool(v.c & 1) : mkConst(v.c, w); }
}
Val Exec::binop(unsigned opc, Val a, Val b, LK k, unsigned w, bool nsw, bool nuw) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, m = m64(w); int64_t s = sx(x, w), t = sx(y, w);
    if (opt.overflow && nsw) {
      i128 r = opc == Instruction::Add ? (i128)s + t : opc == Instruction::Sub ? (i128)s - t : opc == Instruction::Mul ? (i128)s * t : opc == Instruction::Shl ? ((t >= 0 && t < w) ? (i128)s << t : ((i128)1 << 100)) : 0;
      if (r != (i128)sx((uint64_t)r & m, w)) violate("signed-overflow", "signed integer overflow");
    }
    switch (opc) {
      case Instruction::Add: return {(x + y) & m, nullptr}; case Instruction::Sub: return {(x - y) & m, nullptr}; case Instruction::Mul: return {(x * y) & m, nullptr};
      case Instruction::And: return {x & y, nullptr}; case Instruction::Or: return {x | y, nullptr}; case Instruction::Xor: return {x ^ y, nullptr};
      case Instruction::UDiv: if (!y) violate("div-by-zero", "integer division by zero"); return {x / y, nullptr};
      case Instruction::URem: if (!y) violate("div-by-zero", "integer division by zero"); return {x % y, nullptr};
      case Instruction::SDiv: if (!t) violate("div-by-zero", "integer division by zero"); if (t == -1) { if (s == sx(1ULL << (w - 1), w)) violate("div-overflow", "INT_MIN / -1"); return {(uint64_t)(-s) & m, nullptr}; } return {(uint64_t)(s / t) & m, nullptr};
      case Instruction::SRem: if (!t) violate("div-by-zero", "integer division by zero"); if (t == -1) { if (s == sx(1ULL << (w - 1), w)) violate("div-overflow", "INT_MIN % -1"); return {0, nullptr}; } return {(uint64_t)(s % t) & m, nullptr};
      case Instruction::Shl: if (y >= w) { if (opt.overflow) violate("shift", "shift amount too large"); y &= (w <= 32 ? 31 : 63); } return {(x << y) & m, nullptr};
      case Instruction::LShr: if (y >= w) { if (opt.overflow) violate("shift", "shift amount too large"); y &= (w <= 32 ? 31 : 63); } return {y >= w ? 0 : x >> y, nullptr};
      case Instruction::AShr: if (y >= w) { if (opt.overflow) violate("shift", "shift amount too large"); y &= (w <= 32 ? 31 : 63); } return {(uint64_t)(s >> y) & m, nullptr};
    }
    abort();
  }
  Expr *x = toE(a, k, w), *y = toE(b, k, w); K kk;
  switch (opc) {
    case Instruction::Add: kk = K::Add; break; case Instruction::Sub: kk = K::Sub; break; case Instruction::Mul: kk = K::Mul; break;
    case Instruction::And: kk = K::And; break; case Instruction::Or: kk = K::Or; break; case Instruction::Xor: kk = K::Xor; break;
    case Instruction::UDiv: kk = K::UDiv; break; case Instruction::URem: kk = K::URem; break; case Instruction::SDiv: kk = K::SDiv; break; case Instruction::SRem: kk = K::SRem; break;
    case Instruction::Shl: kk = K::Shl; break; case Instruction::LShr: kk = K::LShr; break; case Instruction::AShr: kk = K::AShr; break;
    default: abort();
  }
  if (opc == Instruction::UDiv || opc == Instruction::URem || opc == Instruction::SDiv || opc == Instruction::SRem) {
    if (w > 1) failIf(mkEq(y, mkConst(0, w)), "div-by-zero", "integer division by zero");
    if (opc == Instruction::SDiv || opc == Instruction::SRem) failIf(mkAnd(mkEq(x, mkConst((u128)1 << (w - 1), w)), mkEq(y, mkConst(~(u128)0, w))), "div-overflow", "INT_MIN / -1");
  }
  if (opt.overflow && w > 1 && w <= 64) {
    if (nsw && (kk == K::Add || kk == K::Sub)) failIf(mkNot(mkEq(mkSExt(mkBin(kk, x, y), w + 1), mkBin(kk, mkSExt(x, w + 1), mkSExt(y, w + 1)))), "signed-overflow", "signed integer overflow");
    if (nsw && kk == K::Mul) failIf(mkNot(mkEq(mkSExt(mkBin(kk, x, y), 2 * w), mkBin(kk, mkSExt(x, 2 * w), mkSExt(y, 2 * w)))), "signed-overflow", "signed integer overflow");
    if (kk == K::Shl || kk == K::LShr || kk == K::AShr) failIf(mkNot(mkBin(K::Ult, y, mkConst(w, w))), "shift", "shift amount too large");
  } else if ((kk == K::Shl || kk == K::LShr || kk == K::AShr) && !y->isConst() && w >= 32) y = mkBin(K::And, y, mkConst(w <= 32 ? 31 : 63, w)); // x86 semantics of oversized shifts
  return fromE(mkBin(kk, x, y));
}
void Exec::failIf(Expr* bad, const char* kind, const char* msg) {
  if (bad->isConst()) { if (bad->c) violate(kind, msg); return; }
  if (pos < pre->size()) {
    const Decision& d = (*pre)[pos++]; trail.push_back(d);
    if (d.kind != 3) { fprintf(stderr, "replay divergence (check)\n"); abort(); }
    if (d.choice) addPC(mkNot(bad));
    return;
  }
  bool f = feasible(bad);
  if (f && mergeDepth) throw MergeFail();
  pos++; trail.push_back({3, (uint8_t)f, 1, 0, 0});
  if (f) { report(kind, msg, bad); assume(mkNot(bad)); }
}
Val Exec::fpbin(unsigned opc, Val a, Val b, LK k) {
  if (!a.e && !b.e) {
    if (k == L_FLT) { float x, y, r; memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4); switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); } uint32_t u; memcpy(&u, &r, 4); return {u, nullptr}; }
    double x = asD(a.c), y = asD(b.c), r; switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
    return {asU(r), nullptr};
  }
  if (k != L_DBL) cut("unsupported: symbolic float/long double arithmetic");
  Expr *x = toE(a, k, 64), *y = toE(b, k, 64);
  switch (opc) {
    case Instruction::FAdd: return fromE(mkBin(K::FAdd, x, y)); case Instruction::FSub: return fromE(mkBin(K::FSub, x, y));
    case Instruction::FMul: return fromE(mkBin(K::FMul, x, y));
    case Instruction::FDiv: return fromE(g_realMode ? fdivReal(x, y) : mkBin(K::FDiv, x, y));
    default: cut("unsupported: symbolic fmod");
  }
}
Expr* Exec::fdivReal(Expr* a, Expr* b) {
  if (b->isConst() && b->d != 0) return mkBin(K::FDiv, a, b);
  Expr* z = mkFP(0.0);
  if (decide(mkBin(K::FEq, b, z))) { // IEEE: x/+0
    if (a->isConst()) { double r = a->d / 0.0; return mkFP(r); }
    if (decide(mkBin(K::FEq, a, z))) return mkFP(NAN);
    return mkFP(decide(mkBin(K::FLt, z, a)) ? INFINITY : -INFINITY);
  }
  return mkBin(K::FDiv, a, b);
}
Val Exec::icmp(unsigned pred, Val a, Val b, LK k, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t s = sx(x, w), t = sx(y, w); bool r;
    switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; default: r = s <= t; }
    return {r, nullptr};
  }
  Expr *x = toE(a, k, w), *y = toE(b, k, w), *r;
  switch (pred) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_UGT: r = mkBin(K::Ult, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K::Ule, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(K::Ult, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K::Ule, x, y); break;
    case CmpInst::ICMP_SGT: r = mkBin(K::Slt, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(K::Sle, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(K::Slt, x, y); break; default: r = mkBin(K::Sle, x, y); }
  return fromE(r);
}
Val Exec::fcmp(unsigned pred, Val a, Val b, LK k) {
  if (!a.e && !b.e) {
    double x, y; if (k == L_FLT) { float f, g; memcpy(&f, &a.c, 4); memcpy(&g, &b.c, 4); x = f; y = g; } else { x = asD(a.c); y = asD(b.c); }
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; }
    return {r, nullptr};
  }
  if (k != L_DBL) cut("unsupported: symbolic float/long double comparison");
  Expr *x = toE(a, k, 64), *y = toE(b, k, 64);
  auto un = [&]() { return mkOr(mkUn(K::FIsNan, x), mkUn(K::FIsNan, y)); };
  Expr* r;
  switch (pred) { case CmpInst::FCMP_FALSE: r = mkBool(false); break; case CmpInst::FCMP_TRUE: r = mkBool(true); break; case CmpInst::FCMP_ORD: r = mkNot(un()); break; case CmpInst::FCMP_UNO: r = un(); break;
    case CmpInst::FCMP_OEQ: r = mkBin(K::FEq, x, y); break; case CmpInst::FCMP_OGT: r = mkBin(K::FLt, y, x); break; case CmpInst::FCMP_OGE: r = mkBin(K::FLe, y, x); break; case CmpInst::FCMP_OLT: r = mkBin(K::FLt, x, y); break; case CmpInst::FCMP_OLE: r = mkBin(K::FLe, x, y); break;
    case CmpInst::FCMP_ONE: r = mkOr(mkBin(K::FLt, x, y), mkBin(K::FLt, y, x)); break;
    case CmpInst::FCMP_UEQ: r = mkNot(mkOr(mkBin(K::FLt, x, y), mkBin(K::FLt, y, x))); break;
    case CmpInst::FCMP_UGT: r = mkNot(mkBin(K::FLe, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mkBin(K::FLt, x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(mkBin(K::FLe, y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(mkBin(K::FLt, y, x)); break;
    default: r = mkNot(mkBin(K::FEq, x, y)); }
  return fromE(r);
}
Val Exec::castop(Ins& in, Val v) {
  unsigned w = in.w, fw = in.w2;
  if (!v.e) {
    switch (in.op) {
      case Instruction::Trunc: return {v.c & m64(w), nullptr};
      case Instruction::ZExt: if (w > 64) return {0, mkConst(v.c, w)}; return v;
      case Instruction::SExt: if (w > 64) return {0, mkConst((u128)(i128)sx(v.c, fw), w)}; return {(uint64_t)sx(v.c, fw) & m64(w), nullptr};
      case Instruction::PtrToInt: return {v.c & m64(w), nullptr};
      case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return v;
      case Instruction::BitCast: return v;
      case Instruction::SIToFP: case Instruction::UIToFP: {
        bool sg = in.op == Instruction::SIToFP;
        if (in.k == L_FLT) { float f = sg ? (float)sx(v.c, fw) : (float)v.c; uint32_t u; memcpy(&u, &f, 4); return {u, nullptr}; }
        return {asU(sg ? (double)sx(v.c, fw) : (double)v.c), nullptr};
      }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        double d; if (in.k2 == L_FLT) { float f; memcpy(&f, &v.c, 4); d = f; } else d = asD(v.c);
        bool sg = in.op == Instruction::FPToSI;
        double lo = sg ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sg ? w - 1 : w);
        bool ok = !std::isnan(d) && std::trunc(d) >= lo && std::trunc(d) < hi;
        if (!ok) { if (opt.overflow) violate("float-cast-overflow", "floating value out of range of the integer type"); return {(1ULL << (w - 1)) & m64(w), nullptr}; }
        return {sg ? ((uint64_t)(int64_t)d & m64(w)) : ((uint64_t)d & m64(w)), nullptr};
      }
      case Instruction::FPExt: if (in.k2 == L_FLT) { float f; memcpy(&f, &v.c, 4); return {asU(f), nullptr}; } return v;
      case Instruction::FPTrunc: if (in.k == L_FLT) { float f = (float)asD(v.c); uint32_t u; memcpy(&u, &f, 4); return {u, nullptr}; } return v;
    }
    abort();
  }
  Expr* e = v.e;
  switch (in.op) {
    case Instruction::Trunc: if (w == 1) return fromE(mkNot(mkEq(mkExtract(e, 0, 1), mkConst(0, 1)))); return fromE(mkExtract(e, 0, w));
    case Instruction::ZExt: return fromE(mkZExt(e, w));
    case Instruction::SExt: return fromE(mkSExt(e, w));
    case Instruction::PtrToInt: return fromE(mkExtract(e, 0, w));
    case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return v;
    case Instruction::BitCast:
      if (in.k == L_DBL && in.k2 == L_INT) return fromE(mkFFromBits(e));
      if (in.k == L_INT && in.k2 == L_DBL) return fromE(mkFBits(e));
      if (in.k == in.k2) return v;
      cut("unsupported: symbolic bitcast");
    case Instruction::SIToFP: case Instruction::UIToFP:
      if (in.k != L_DBL) cut("unsupported: symbolic float conversion");
      if (e->s == S::Bool) return fromE(mkIte(e, mkFP(in.op == Instruction::SIToFP ? -1.0 : 1.0), mkFP(0.0)));
      return fromE(mkFFromI(e, in.op == Instruction::SIToFP));
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (in.k2 != L_DBL) cut("unsupported: symbolic float conversion");
      bool sg = in.op == Instruction::FPToSI;
      double lo = sg ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sg ? w - 1 : w);
      bool known = e->s == S::Real && e->lo - e->err > lo - 1 && e->hi + e->err < hi;
      if (!known) {
        Expr* ok = (w < 53) ? mkAnd(mkBin(K::FLt, mkFP(lo - 1), e), mkBin(K::FLt, e, mkFP(hi))) : mkAnd(mkBin(K::FLe, mkFP(lo), e), mkBin(K::FLt, e, mkFP(hi)));
        if (opt.overflow) failIf(mkNot(ok), "float-cast-overflow", "floating value out of range of the integer type");
        else if (e->s == S::Real) { if (!decide(ok)) return {1ULL << (w - 1), nullptr}; }
      }
      return fromE(mkFToI(e, w, sg));
    }
    case Instruction::FPExt: case Instruction::FPTrunc: cut("unsupported: symbolic float/long double conversion");
  }
  abort();
}

// ---------------------------------------------------------------- frames
void Exec::pushFrame(Fn* f, const std::vector<Val>& args, int ret) {
  if (!f->compiled) compile(f);
  Thread* t = th[cur];
  if (t->st.size() > opt.maxDepth) violate("stack-overflow", "call depth limit reached");
  if (f->isRepo) repoFns[f->name]++;
  Frame fr; fr.fn = f; fr.R = (Val*)malloc(sizeof(Val) * (f->nslots + 1)); fr.pc = 0; fr.ret = ret; fr.lpExc = 0; fr.lpSel = 0; fr.vaList = 0;
  int n = std::min<int>(args.size(), f->nargs);
  for (int i = 0; i < n; i++) fr.R[i] = args[i];
  for (int i = n; i < f->nslots; i++) fr.R[i] = Val{0, nullptr};
  t->st.push_back(std::move(fr));
}
void Exec::popFrame() {
  Thread* t = th[cur]; Frame& fr = t->st.back();
  for (uint32_t id : fr.allocas) objs[id].alive = 0;
  free(fr.R); t->st.pop_back();
}
void Exec::jump(Frame& fr, int ei) {
  Edge& e = fr.fn->edges[ei];
  if (!e.moves.empty()) {
    Val tmp[64]; std::vector<Val> big; Val* t = tmp; size_t n = e.moves.size();
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { int s = e.moves[i].src; t[i] = s >= 0 ? fr.R[s] : fr.fn->consts[-s - 1]; }
    for (size_t i = 0; i < n; i++) fr.R[e.moves[i].dst] = t[i];
  }
  fr.pc = e.target;
}

// ---------------------------------------------------------------- run
Exec::PathResult Exec::run(const std::string& entry, const Prefix& prefix) {
  pre = &prefix; pos = 0; trail.clear(); newAlternatives.clear(); pc.clear(); events.clear(); observes.clear(); violations.clear();
  tracking = false; curDecided = false; foot.clear(); sleeping.clear(); openAt = -1; syncVC.clear(); race.clear();
  mergeDepth = 0; undo.clear(); stopPc = -1; pathInstr = 0; fresh = 0; nameCount.clear(); excs.clear(); ufSeen.clear(); ufConc = ufSym = false;
  chunkIdx = 0; chunkPos = 0;
  for (char* c : bigs) free(c);
  bigs.clear();
  objs = initObjs;
  for (auto& g : gvars) { Obj& o = objs[g.second >> 32]; if (!o.ro && o.size) { uint8_t* d = (uint8_t*)bump(o.size); memcpy(d, o.data, o.size); o.data = d; } }
  for (Thread* t : th) { for (auto& f : t->st) free(f.R); delete t; }
  th.clear(); cur = 0; th.push_back(new Thread);
  PathResult res{End::Ok, "", 0};
  try {
    std::vector<std::pair<uint64_t, Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) { pushFrame(getFn(c.second), {}, -1); interp(); }
    Function* E = M->getFunction(entry);
    if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
    th[0]->done = false;
    pushFrame(getFn(E), {}, -1); interp();
  } catch (PathResult& r) { res = r; }
  if (openAt >= 0) { curDecided = true; endTransition(); }
  res.instrs = pathInstr; totalInstr += pathInstr;
  return res;
}

// ---------------------------------------------------------------- exceptions
std::vector<Exec::Base> Exec::basesOf(const GlobalVariable* ti) {
  std::vector<Base> r;
  if (!ti->hasInitializer()) return r;
  auto* cs = dyn_cast<ConstantStruct>(ti->getInitializer()); if (!cs) return r;
  const Value* vt = cs->getOperand(0)->stripInBoundsConstantOffsets();
  std::string kind = vt->getName().str();
  auto gvOf = [](const Constant* c) { return dyn_cast<GlobalVariable>(c->stripPointerCasts()); };
  if (kind.find("20__si_class_type_info") != std::string::npos) { if (auto* b = gvOf(cs->getOperand(2))) r.push_back({b, 0, true, false}); }
  else if (kind.find("21__vmi_class_type_info") != std::string::npos) {
    unsigned n = cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
    for (unsigned i = 0; i < n; i++) {
      auto* b = gvOf(cs->getOperand(4 + 2 * i)); int64_t fl = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue();
      if (b) r.push_back({b, fl >> 8, (fl & 2) != 0, (fl & 1) != 0});
    }
  }
  return r;
}
void Exec::allSub(const GlobalVariable* ti, uint64_t addr, bool pub, std::vector<std::tuple<const GlobalVariable*, uint64_t, bool>>& out) {
  out.push_back({ti, addr, pub});
  for (auto& b : basesOf(ti)) {
    uint64_t a = addr;
    if (b.virt) { uint64_t vt = rd(addr, 8); a += (int64_t)rd(vt + b.off, 8); } else a += b.off;
    allSub(b.ti, a, pub && b.pub, out);
  }
}
bool Exec::upcast(const GlobalVariable* from, const GlobalVariable* to, uint64_t obj, uint64_t& adj) {
  if (from == to || from->getName() == to->getName()) { adj = obj; return true; }
  std::vector<std::tuple<const GlobalVariable*, uint64_t, bool>> v; allSub(from, obj, true, v);
  int n = 0; for (auto& [t, a, p] : v) if ((t == to || t->getName() == to->getName()) && p) { if (!n || a != adj) n++; adj = a; }
  return n == 1;
}
bool Exec::catchMatch(uint64_t thrown, uint64_t wanted, uint64_t obj, uint64_t& adj) {
  adj = obj;
  if (!wanted) return true;
  if (thrown == wanted) { return true; }
  auto a = tiOfAddr.find(thrown), b = tiOfAddr.find(wanted);
  if (a == tiOfAddr.end() || b == tiOfAddr.end()) return false;
  return upcast(a->second, b->second, obj, adj);
}
uint64_t Exec::dynCast(uint64_t ptr, uint64_t src, uint64_t dst) {
  uint64_t vt = rd(ptr, 8); int64_t top = (int64_t)rd(vt - 16, 8); uint64_t ti = rd(vt - 8, 8);
  uint64_t whole = ptr + top; auto it = tiOfAddr.find(ti); auto d = tiOfAddr.find(dst);
  if (it == tiOfAddr.end() || d == tiOfAddr.end()) cut("unsupported: dynamic_cast without type information");
  std::vector<std::tuple<const GlobalVariable*, uint64_t, bool>> v; allSub(it->second, whole, true, v);
  uint64_t r = 0; int n = 0;
  for (auto& [t, a, p] : v) if (p && (t == d->second || t->getName() == d->second->getName())) { if (!n || a != r) n++; r = a; }
  return n == 1 ? r : 0;
}
int Exec::typeIndex(uint64_t ti) {
  auto it = tiIndex.find(ti); if (it != tiIndex.end()) return it->second;
  tiByIndex.push_back(ti); return tiIndex[ti] = tiByIndex.size();
}
void Exec::doThrow(uint64_t exc, uint64_t ti) {
  Thread* t = th[cur];
  if (!excs.count(exc)) excs[exc] = {ti, exc, 0, false};
  ExcInfo& ei = excs[exc];
  // phase 1: is there a handler at all?
  bool handled = false; uint64_t adj = exc;
  for (int i = (int)t->st.size() - 1; i >= 0 && !handled; i--) {
    Frame& fr = t->st[i]; Ins& in = fr.fn->code[fr.pc];
    if (in.op != Instruction::Invoke) continue;
    auto* lp = cast<InvokeInst>(in.I)->getLandingPadInst();
    for (unsigned k = 0; k < lp->getNumClauses() && !handled; k++) {
      if (lp->isCatch(k)) { std::vector<Val> v; constVals(lp->getClause(k), v); uint64_t a; if (catchMatch(ei.ti, v[0].c, exc, a)) handled = true; }
      else handled = true; // filter: decided below
    }
  }
  if (!handled) {
    std::string n = "?"; auto it = tiOfAddr.find(ei.ti); if (it != tiOfAddr.end()) n = demangle("_Z" + it->second->getName().drop_front(4).str()); 
    if (it != tiOfAddr.end()) n = demangle(it->second->getName().str());
    violate("uncaught-exception", "uncaught exception, " + n);
  }
  while (!t->st.empty()) {
    Frame& fr = t->st.back(); Ins& in = fr.fn->code[fr.pc];
    if (in.op == Instruction::Invoke) {
      auto* lp = cast<InvokeInst>(in.I)->getLandingPadInst(); bool match = lp->isCleanup(); int sel = 0;
      for (unsigned k = 0; k < lp->getNumClauses(); k++) {
        if (lp->isCatch(k)) {
          std::vector<Val> v; constVals(lp->getClause(k), v); uint64_t a;
          if (catchMatch(ei.ti, v[0].c, exc, a)) { match = true; sel = typeIndex(v[0].c); ei.adj = a; break; }
        } else {
          auto* arr = lp->getClause(k); unsigned n = cast<ArrayType>(arr->getType())->getNumElements(); bool ok = false;
          for (unsigned q = 0; q < n && !ok; q++) { std::vector<Val> v; constVals(arr->getAggregateElement(q), v); uint64_t a; ok = catchMatch(ei.ti, v[0].c, exc, a); }
          if (!ok) { match = true; sel = -1; break; }
        }
      }
      if (match) { fr.lpExc = exc; fr.lpSel = (uint32_t)sel; jump(fr, in.c); return; }
    }
    popFrame();
  }
  violate("uncaught-exception", "uncaught exception");
}

// ---------------------------------------------------------------- threads
bool Exec::threadEnabled(Thread* t) { if (t->done) return false; if (!t->waitAddr) return true; return rd(t->waitAddr, 4) != 0; }
static bool meets(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; }
  return false;
}
// Every access of the running transition, by 8-byte granule; with opt.race also the happens-before check.
void Exec::access(uint64_t a, uint64_t n, bool w) {
  uint64_t id = a >> 32; Obj& o = objs[id]; if (o.ro || o.hidden) return;
  if (id < transObj) for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) { auto it = foot.emplace(g, w).first; if (w) it->second = true; }
  if (!opt.race || mergeDepth || th[cur]->st.empty() || th[cur]->st.back().fn->shim) return;
  Thread* t = th[cur]; if ((int)t->vc.size() <= cur) t->vc.resize(cur + 1, 1);
  for (uint64_t b = a; b < a + n; b++) {
    RaceCell& c = race[b]; auto before = [&](int u, uint32_t k) { return u == cur || (u < (int)t->vc.size() && t->vc[u] >= k); };
    if (c.wt >= 0 && !before(c.wt, c.wc)) violate("data-race", w ? "two threads write the same memory without synchronisation" : "memory is read without synchronisation with its last write");
    if (w) {
      for (auto& q : c.rd) if (!before(q.first, q.second)) violate("data-race", "memory is written without synchronisation with a read of it");
      c.rd.clear(); c.wt = cur; c.wc = t->vc[cur];
    } else { bool f = false; for (auto& q : c.rd) if (q.first == cur) { q.second = t->vc[cur]; f = true; } if (!f) c.rd.push_back({cur, t->vc[cur]}); }
  }
}
void Exec::syncAcquire(uint64_t a) { auto it = syncVC.find(a); if (it == syncVC.end()) return; auto& v = th[cur]->vc; if (v.size() < it->second.size()) v.resize(it->second.size(), 0); for (size_t i = 0; i < it->second.size(); i++) v[i] = std::max(v[i], it->second[i]); }
void Exec::syncRelease(uint64_t a) { auto& v = th[cur]->vc; if ((int)v.size() <= cur) v.resize(cur + 1, 1); auto& s = syncVC[a]; if (s.size() < v.size()) s.resize(v.size(), 0); for (size_t i = 0; i < v.size(); i++) s[i] = std::max(s[i], v[i]); v[cur]++; }
// The transition of th[cur] is over: drop the sleeping transitions that depend on it, and schedule the next alternative
// of the decision that started it.
void Exec::endTransition() {
  if (events.size() != transEvents) foot[0] = true;
  Foot f; f.thread = cur; for (auto& g : foot) (g.second ? f.w : f.r).push_back(g.first);
  std::sort(f.r.begin(), f.r.end()); std::sort(f.w.begin(), f.w.end());
  sleeping.erase(std::remove_if(sleeping.begin(), sleeping.end(), [&](Foot& q) { return q.thread == cur || meets(q.w, f.w) || meets(q.w, f.r) || meets(q.r, f.w); }), sleeping.end());
  if (openAt >= 0 && openChoice + 1 < openN) {
    Prefix alt = trail; alt.resize(openAt); while (!alt.sleep.empty() && alt.sleep.rbegin()->first > (uint32_t)openAt) alt.sleep.erase(std::prev(alt.sleep.end()));
    alt.push_back({2, (uint8_t)(openChoice + 1), 1, (uint8_t)openN, 0}); auto& sl = alt.sleep[openAt]; if (!curDecided) sl.push_back(f);
    if (sl.empty()) alt.sleep.erase(openAt);
    newAlternatives.push_back(alt);
  }
  openAt = -1; foot.clear(); curDecided = false;
}
void Exec::schedule(bool curEnabled) {
  if (mergeDepth) throw MergeFail();
  if (tracking) { if (th[cur]->waitAddr) foot[th[cur]->waitAddr >> 3]; endTransition(); }
  std::vector<int> en, cand;
  for (size_t i = 0; i < th.size(); i++) { size_t j = (cur + i) % th.size(); if (!th[j]->done && threadEnabled(th[j])) en.push_back(j); }
  if (en.empty()) violate("deadlock", "no thread can make progress");
  for (int j : en) { bool s = false; for (auto& f : sleeping) s |= f.thread == j; if (!s) cand.push_back(j); }
  if (cand.empty()) throw PathResult{End::Pruned, "equivalent schedule explored elsewhere", pathInstr};
  unsigned k = 0, n = cand.size();
  if (opt.cache && pos >= pre->size()) { unsigned m = 0; for (auto& f : sleeping) m |= 1u << f.thread; if (visited(m)) throw PathResult{End::Pruned, "state explored elsewhere", pathInstr}; }
  if (n > 1) {
    size_t at = trail.size();
    if (pos < pre->size()) {
      const Decision& d = (*pre)[pos++]; if (d.kind != 2 || d.n != n) { fprintf(stderr, "replay divergence (schedule)\n"); abort(); }
      trail.push_back(d); k = d.choice; auto it = pre->sleep.find(at); if (it != pre->sleep.end()) { trail.sleep[at] = it->second; for (auto& f : it->second) sleeping.push_back(f); }
      if (pos == pre->size()) { openAt = at; openChoice = k; openN = n; }
    } else { pos++; trail.push_back({2, 0, 1, (uint8_t)n, 0}); openAt = at; openChoice = 0; openN = n; }
    Expr* v = mkVar(freshName("sched"), S::BV, 8); nwayVars.insert(v->var); addPC(mkEq(v, mkConst(cand[k], 8)));
  }
  if (en.size() > 1) events.push_back({"sched", 0, nullptr, (uint64_t)cand[k], 0}); // replay needs the thread id
  cur = cand[k]; tracking = true; transObj = objs.size(); curDecided = false; foot.clear(); transEvents = events.size();
  if (th[cur]->waitAddr) foot[th[cur]->waitAddr >> 3] = true; 
  th[cur]->waitAddr = 0;
}
