#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GlobalVariable.h>
#include <unordered_map>
#include <map>
#include <string>
#include <vector>
#include <functional>

struct Val { uint64_t c; Expr* e; };

enum LK : uint8_t { L_INT, L_PTR, L_DBL, L_FLT, L_X80 };
struct Leaf { uint32_t off; LK k; uint16_t w; uint16_t bytes; };

struct Move { int dst, src; };
struct Ins {
  uint16_t op; LK k; uint16_t w; uint16_t w2; LK k2;
  int dst; int a, b, c; uint32_t n; int* ops;
  int64_t imm; llvm::Instruction* I; void* p;
  std::vector<Leaf>* leaves;
};
struct Block { int start; };
struct Edge { std::vector<Move> moves; int target; };
struct Fn {
  llvm::Function* F; std::string name; int nslots = 0, nargs = 0;
  std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges;
  std::unordered_map<const llvm::Value*, int> slot;
  std::unordered_map<const llvm::BasicBlock*, int> bbStart;
  bool isRepo = false, shim = false; uint64_t calls = 0; int ext = -1; bool compiled = false;
  std::unordered_map<const llvm::BasicBlock*, const llvm::BasicBlock*> ipdom; bool pdomDone = false; bool pureExt = false;
};
struct SymB { Expr* e; uint8_t i, n; };
struct Obj { uint64_t size; uint8_t* data; SymB* sym; uint32_t nsym; uint8_t alive, ro, kind, hidden; Fn* fn; uint32_t owner; };
// kinds: 0 global 1 heap 2 stack 3 function 4 exception
struct Frame { Fn* fn; Val* R; int pc; int ret; std::vector<uint32_t> allocas; uint64_t lpExc; uint32_t lpSel; uint64_t vaList; };
struct Thread { std::vector<Frame> st; std::vector<uint64_t> caught; uint64_t waitAddr = 0; bool done = false; int id = 0; Val retv[8]; std::vector<uint32_t> vc; };

struct Decision { uint8_t kind, choice, forced, n; uint64_t val; }; // kind 0 branch, 1 concretise, 2 n-way
// What one transition (the code a thread runs between two scheduling points) touched.
struct Foot { int thread; std::vector<uint64_t> r, w; };
// sleep: at a scheduling decision (by index), the transitions already explored instead of the chosen one
struct Prefix : std::vector<Decision> { std::map<uint32_t, std::vector<Foot>> sleep; void clear() { std::vector<Decision>::clear(); sleep.clear(); } };

struct Event { std::string name; int kind; Expr* e; uint64_t c; double d; }; // input events in call order; kind 0 int 1 double
struct Violation { std::string kind, msg, where, witness; std::string key; bool reproduced = false; };
enum class End { Ok, Infeasible, Violation, Cut, Pruned };

struct Options {
  bool overflow = false; int merge = 1; // 0 never merge branches, 1 integers only, 2 doubles too
  uint64_t maxInstr = 50000000; unsigned maxDepth = 3000; unsigned queryMs = 20000;
  unsigned maxConc = 4096; unsigned uninit = 0; unsigned feasMs = 5000; bool race = false, cache = false; bool checkFeas = true;
};

struct MergeFail {}; // thrown while both sides of a branch are executed speculatively
struct Undo { uint32_t id; uint32_t off; Leaf l; uint8_t data[16]; SymB sym[16]; bool hadSym; };

struct Exec {
  llvm::Module* M; const llvm::DataLayout* DL; Solver& S; Options opt;
  Exec(llvm::Module* m, Solver& s, Options o);
  // run one path
  struct PathResult { End end; std::string why; uint64_t instrs; };
  PathResult run(const std::string& entry, const Prefix& prefix);
  std::vector<Prefix> newAlternatives;
  Prefix trail;
  std::vector<Expr*> pc;
  std::vector<Event> events, observes;
  std::vector<Violation> violations;        // of this path
  std::map<std::string, uint64_t> covers;    // labels reached with a satisfiable path condition
  std::map<std::string, std::pair<uint64_t, uint64_t>> asserts; // msg -> (trivial/concrete, solver-discharged)
  uint64_t assertUnknown = 0, feasUnknown = 0, totalInstr = 0;
  std::map<std::string, uint64_t> unknownAsserts;
  std::map<std::string, uint64_t> repoFns;
  std::string witnessJson(Solver::Model& m);
  bool pathWitness(std::string& out);
private:
  friend struct Ext;
  // memory
  std::vector<Obj> objs; std::vector<char*> chunks, bigs; size_t chunkPos = 0, chunkIdx = 0;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::vector<std::pair<const llvm::GlobalVariable*, uint64_t>> gvars;
  std::unordered_map<const llvm::Function*, Fn*> fns;
  std::unordered_map<std::string, int> extIdx;
  typedef std::function<bool(std::vector<Val>& args, Val* ret)> ExtFn; // returns false when control was transferred
  std::vector<ExtFn> exts; Fn* curCallee = nullptr;
  void* bump(size_t n);
  uint32_t newObj(uint64_t size, uint8_t kind, bool zero);
  static uint64_t baseOf(uint32_t id) { return ((uint64_t)id << 32) + 0x1000; }
  Obj* find(uint64_t addr, uint64_t n, uint64_t& off, bool write, const char* what);
  Val loadLeaf(uint64_t addr, const Leaf& l);
  void storeLeaf(uint64_t addr, const Leaf& l, Val v);
  void copyMem(uint64_t d, uint64_t s, uint64_t n);
  void setMem(uint64_t d, Val v, uint64_t n);
  void clearSym(Obj& o, uint64_t off, uint64_t n);
  uint64_t rd(uint64_t addr, unsigned n);
  void wr(uint64_t addr, unsigned n, uint64_t v);
  std::string rdStr(uint64_t addr);
  // compile
  Fn* getFn(const llvm::Function* F);
  void compile(Fn* f);
  int operand(Fn* f, const llvm::Value* v);
  void leavesOf(llvm::Type* T, std::vector<Leaf>& out, uint32_t off);
  std::map<llvm::Type*, std::vector<Leaf>*> leafCache;
  std::vector<Leaf>* leaves(llvm::Type* T);
  unsigned slotsOf(llvm::Type* T);
  void constVals(const llvm::Constant* C, std::vector<Val>& out);
  void writeConst(uint64_t addr, const llvm::Constant* C);
  void layoutGlobals();
  // execution
  std::vector<Thread*> th; int cur = 0;
  uint64_t pathInstr = 0; size_t pos = 0; const Prefix* pre = nullptr; unsigned fresh = 0;
  std::map<std::string, unsigned> nameCount;
  std::string freshName(const std::string& n);
  void step();
  void interp();
  void pushFrame(Fn* f, const std::vector<Val>& args, int ret);
  void popFrame();
  void jump(Frame& fr, int edge);
  bool decide(Expr* c);
  uint64_t concretize(Val v, unsigned w);
  unsigned nway(unsigned n, const char* name);
  void addPC(Expr* c);
  bool feasible(Expr* c);
  void assume(Expr* c);
  void assertProp(Expr* c, const std::string& msg, Expr* strong = nullptr);
  [[noreturn]] void violate(const std::string& kind, const std::string& msg);
  void report(const std::string& kind, const std::string& msg, Expr* extra);
  [[noreturn]] void cut(const std::string& why);
  Expr* toE(Val v, LK k, unsigned w);
  Val fromE(Expr* e);
  void call(Ins& in, Frame& fr, Fn* callee, std::vector<Val>& args);
  void doThrow(uint64_t exc, uint64_t ti);
  struct ExcInfo { uint64_t ti; uint64_t adj; int handlers; bool rethrown; };
  std::map<uint64_t, ExcInfo> excs;
  std::map<uint64_t, int> tiIndex; std::vector<uint64_t> tiByIndex;
  int typeIndex(uint64_t ti);
  struct Base { const llvm::GlobalVariable* ti; int64_t off; bool pub, virt; };
  std::vector<Base> basesOf(const llvm::GlobalVariable* ti);
  std::unordered_map<uint64_t, const llvm::GlobalVariable*> tiOfAddr;
  bool catchMatch(uint64_t thrown, uint64_t wanted, uint64_t obj, uint64_t& adj);
  bool upcast(const llvm::GlobalVariable* from, const llvm::GlobalVariable* to, uint64_t obj, uint64_t& adj);
  void allSub(const llvm::GlobalVariable* ti, uint64_t addr, bool pub, std::vector<std::tuple<const llvm::GlobalVariable*, uint64_t, bool>>& out);
  uint64_t dynCast(uint64_t ptr, uint64_t src, uint64_t dst);
  void schedule(bool curEnabled);
  bool threadEnabled(Thread* t);
  std::string where();
  void registerExts();
  Val binop(unsigned opc, Val a, Val b, LK k, unsigned w, bool nsw, bool nuw);
  Val fpbin(unsigned opc, Val a, Val b, LK k);
  Val icmp(unsigned pred, Val a, Val b, LK k, unsigned w);
  Val fcmp(unsigned pred, Val a, Val b, LK k);
  Val castop(Ins& in, Val v);
  Val libm1(const std::string& n, Val x);
  Val libm2(const std::string& n, Val x, Val y);
  void failIf(Expr* bad, const char* kind, const char* msg);
  // threads: footprints of transitions, sleep sets, happens-before races
  struct AtomicScope; friend struct AtomicScope;
  void access(uint64_t a, uint64_t n, bool w);
  void endTransition(); void syncAcquire(uint64_t a); void syncRelease(uint64_t a);
  bool tracking = false, curDecided = false; uint64_t transObj = 0; size_t transEvents = 0; std::unordered_map<uint64_t, bool> foot; std::vector<Foot> sleeping;
  public: static void cacheInit(); private: bool visited(unsigned sleepMask); std::set<uint32_t> nwayVars; uint64_t cacheSalt = 0; size_t nInit = 0;
  int openAt = -1, openChoice = 0, openN = 0;
  std::unordered_map<uint64_t, std::vector<uint32_t>> syncVC;
  struct RaceCell { int wt = -1; uint32_t wc = 0; std::vector<std::pair<int, uint32_t>> rd; };
  std::unordered_map<uint64_t, RaceCell> race;
  // merging of the two sides of a branch
  int mergeDepth = 0; size_t mergeFrames = 0; int stopPc = -1, stopEdge = -1; uint64_t mergeLimit = 0; std::vector<Undo> undo; std::vector<Val> stopPhi;
  std::unordered_map<const llvm::Instruction*, int> mergeBad;
  void computePdom(Fn* f);
  int mergeTarget(Fn* f, Ins& in);
  bool tryMerge(Frame& fr, Ins& in, Expr* c);
  void rollback(size_t mark);
  bool branch(Frame& fr, Ins& in, Expr* c); // true when the branch was merged
  std::set<std::string> ufSeen; bool ufConc = false, ufSym = false;
public:
  double deadline = 1e18; void checkTime();
  uint64_t streamCalls = 0, throwsSeen = 0;
private:
  Expr* fdivReal(Expr* a, Expr* b);
};
double asD(uint64_t c);
uint64_t asU(double d);
