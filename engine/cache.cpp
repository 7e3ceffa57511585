// Visited states of multi-threaded runs: at a scheduling point the whole state (threads, reachable memory, path
// condition) is hashed up to the naming of heap objects; a state already being explored with no more sleeping
// transitions is not explored again. The table is shared by all workers (128-bit hashes).
#include "exec.h"
#include <llvm/ADT/STLExtras.h>
#include <set>
#include <llvm/IR/CFG.h>
#include <sys/mman.h>
#include <algorithm>
using namespace llvm;
namespace {
struct H { uint64_t a = 0x9e3779b97f4a7c15ULL, b = 0xc2b2ae3d27d4eb4fULL; void mix(uint64_t v) { a = (a ^ v) * 0xff51afd7ed558ccdULL; a ^= a >> 32; b = (b + v) * 0xc4ceb9fe1a85ec53ULL; b ^= b >> 29; } };
struct Slot { volatile uint64_t a, b; volatile uint64_t mask; };
Slot* table = nullptr; const size_t TN = 1u << 23;
std::unordered_map<Expr*, uint64_t> exprHashes; size_t exprGen = 0;
uint64_t exprHash(Expr* e) {
  auto it = exprHashes.find(e); if (it != exprHashes.end()) return it->second;
  H h; h.mix((uint64_t)e->k); h.mix((uint64_t)e->s); h.mix(e->w); h.mix((uint64_t)e->c); h.mix((uint64_t)(e->c >> 64)); uint64_t u; memcpy(&u, &e->d, 8); h.mix(u);
  if (e->k == K::Var || e->k == K::UF) for (char c : g_vars[e->var].name) h.mix(c);
  h.mix(e->n); for (uint32_t i = 0; i < e->n; i++) h.mix(exprHash(e->a[i]));
  return exprHashes[e] = h.a ^ h.b;
}
// values used after instruction I (a pending call, whose result is not there yet), or from I on
const std::vector<const Value*>& live(const Instruction* I, bool after) {
  static std::map<std::pair<const Instruction*, bool>, std::vector<const Value*>> memo; static std::unordered_map<const BasicBlock*, std::vector<const Value*>> outs; static std::unordered_map<const Function*, bool> done;
  auto it = memo.find({I, after}); if (it != memo.end()) return it->second;
  const Function* F = I->getFunction();
  auto isV = [](const Value* v) { return isa<Argument>(v) || isa<Instruction>(v); };
  typedef std::set<const Value*> Set;
  if (!done[F]) {
    done[F] = true; std::unordered_map<const BasicBlock*, Set> in, out; bool ch = true;
    while (ch) { ch = false;
      for (auto& B : llvm::reverse(*F)) {
        Set o; for (const BasicBlock* S : successors(&B)) { for (auto* v : in[S]) o.insert(v); for (const PHINode& P : S->phis()) { const Value* v = P.getIncomingValueForBlock(&B); if (isV(v)) o.insert(v); } }
        Set i = o; for (const Instruction& X : llvm::reverse(B)) { i.erase(&X); if (!isa<PHINode>(X)) for (const Value* v : X.operands()) if (isV(v)) i.insert(v); }
        if (o.size() != out[&B].size() || i.size() != in[&B].size()) { ch = true; out[&B] = o; in[&B] = i; }
      } }
    for (auto& B : *F) outs[&B] = std::vector<const Value*>(out[&B].begin(), out[&B].end());
  }
  const BasicBlock* B = I->getParent(); Set s(outs[B].begin(), outs[B].end());
  for (const Instruction& X : llvm::reverse(*B)) { if (&X == I && after) break; s.erase(&X); if (!isa<PHINode>(X)) for (const Value* v : X.operands()) if (isV(v)) s.insert(v); if (&X == I) break; }
  if (after) s.erase(I);
  return memo[{I, after}] = std::vector<const Value*>(s.begin(), s.end());
}
}
void Exec::cacheInit() { table = (Slot*)mmap(0, TN * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (table == MAP_FAILED) table = nullptr; }
bool Exec::visited(unsigned sleepMask) {
  if (!table) return false;
  H h; std::vector<uint32_t> canon(objs.size(), 0), queue; uint32_t n = 0;
  auto word = [&](uint64_t v) {
    uint64_t id = v >> 32, lo = v & 0xffffffffu;
    if (id >= nInit && id < objs.size() && lo >= 0x1000 && lo - 0x1000 <= objs[id].size) {
      if (!objs[id].alive) { h.mix(0xdead); h.mix(lo); return; }
      if (!canon[id]) { canon[id] = ++n; queue.push_back(id); }
      h.mix(0xbeef); h.mix(canon[id]); h.mix(lo);
    } else h.mix(v);
  };
  auto val = [&](const Val& v) { if (v.e) { h.mix(0x5e); h.mix(exprHash(v.e)); } else word(v.c); };
  auto content = [&](const Obj& o) {
    h.mix(o.size); h.mix(o.alive); uint64_t i = 0;
    for (; i + 8 <= o.size; i += 8) {
      bool s = false; if (o.nsym) for (int k = 0; k < 8; k++) s |= o.sym[i + k].e != nullptr;
      if (!s) { uint64_t v; memcpy(&v, o.data + i, 8); word(v); } else for (int k = 0; k < 8; k++) { auto& b = o.sym[i + k]; if (b.e) { h.mix(exprHash(b.e)); h.mix(b.i * 16 + b.n); } else h.mix(o.data[i + k]); }
    }
    for (; i < o.size; i++) { if (o.nsym && o.sym[i].e) { h.mix(exprHash(o.sym[i].e)); h.mix(o.sym[i].i * 16 + o.sym[i].n); } else h.mix(o.data[i]); }
  };
  h.mix(cacheSalt); h.mix(th.size());
  // which thread ran last matters to nothing but the order of exploration
  for (Thread* t : th) {
    h.mix(t->done); word(t->waitAddr); h.mix(t->st.size());
    for (Frame& f : t->st) {
      h.mix((uint64_t)f.fn->F); h.mix(f.pc); h.mix(f.ret); word(f.lpExc); h.mix(f.lpSel);
      const Instruction* I = f.fn->code[f.pc].I; bool top = &f == &t->st.back();
      // a waiting thread stands right after its call; callers stand at theirs
      if (I) for (const Value* v : live(I, !top)) { auto it = f.fn->slot.find(v); if (it == f.fn->slot.end()) continue; for (unsigned k = 0; k < slotsOf(v->getType()); k++) val(f.R[it->second + k]); }
    }
    h.mix(t->caught.size()); for (uint64_t c : t->caught) word(c);
  }
  for (auto& g : gvars) { Obj& o = objs[g.second >> 32]; if (!o.ro && !o.hidden && o.size) content(o); }
  for (size_t i = 0; i < queue.size(); i++) content(objs[queue[i]]);
  h.mix(excs.size()); for (auto& e : excs) { word(e.first); h.mix(e.second.handlers); h.mix(e.second.rethrown); }
  for (auto& c : nameCount) if (c.first != "sched" && c.first != "notify") { for (char ch : c.first) h.mix(ch); h.mix(c.second); }
  { std::vector<uint64_t> p; for (Expr* c : pc) { bool nw = false; for (uint32_t v : varsOf(c)) nw |= nwayVars.count(v) != 0; if (!nw) p.push_back(exprHash(c)); } std::sort(p.begin(), p.end()); for (uint64_t v : p) h.mix(v); }
  uint64_t a = h.a | 1, b = h.b | 1;
  for (size_t i = a % TN, k = 0; k < 64; k++, i = (i + 1) % TN) {
    uint64_t o = table[i].a; 
    if (!o) { uint64_t z = 0; if (__atomic_compare_exchange_n(&table[i].a, &z, a, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { table[i].mask = sleepMask; __atomic_store_n(&table[i].b, b, __ATOMIC_SEQ_CST); return false; } o = z; }
    if (o == a) {
      uint64_t bb; for (int spin = 0; !(bb = __atomic_load_n(&table[i].b, __ATOMIC_SEQ_CST)) && spin < 100000; spin++);
      if (bb == b) { if ((table[i].mask & ~(uint64_t)sleepMask) == 0) return true; __atomic_and_fetch(&table[i].mask, sleepMask, __ATOMIC_SEQ_CST); return false; }
    }
  }
  return false;
}
