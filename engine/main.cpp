// symx: bounded symbolic execution of LLVM IR with an SMT solver.
// usage: symx --bc FILE --jobs N --out REPORT.json [--time S] ENTRY[:opt,opt...] ...
//   entry options: real round overflow race ms=N feas=N instr=N paths=N time=N samples=N
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <poll.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

struct Entry { std::string name; Options opt; bool real = false, round = false; uint64_t maxPaths = 2000000; double maxTime = 1e9; unsigned samples = 4; };

// ---- serialisation
struct Buf {
  std::string s; size_t p = 0;
  void u(uint64_t v) { s.append((char*)&v, 8); }
  void d(double v) { s.append((char*)&v, 8); }
  void str(const std::string& v) { u(v.size()); s += v; }
  uint64_t ru() { uint64_t v; memcpy(&v, &s[p], 8); p += 8; return v; }
  double rd() { double v; memcpy(&v, &s[p], 8); p += 8; return v; }
  std::string rstr() { uint64_t n = ru(); std::string r = s.substr(p, n); p += n; return r; }
  void pre(const Prefix& x) { u(x.size()); for (auto& q : x) { s.push_back((char)q.kind); s.push_back((char)q.choice); s.push_back((char)q.forced); s.push_back((char)q.n); if (q.kind == 1) u(q.val); } u(x.sleep.size()); for (auto& q : x.sleep) { u(q.first); u(q.second.size()); for (auto& f : q.second) { u(f.thread); u(f.r.size()); for (auto v : f.r) u(v); u(f.w.size()); for (auto v : f.w) u(v); } } }
  Prefix rpre() { Prefix x; uint64_t n = ru(); x.resize(n); for (auto& q : x) { q.kind = s[p]; q.choice = s[p + 1]; q.forced = s[p + 2]; q.n = s[p + 3]; p += 4; q.val = q.kind == 1 ? ru() : 0; } uint64_t k = ru(); while (k--) { auto& s = x.sleep[ru()]; s.resize(ru()); for (auto& f : s) { f.thread = ru(); f.r.resize(ru()); for (auto& v : f.r) v = ru(); f.w.resize(ru()); for (auto& v : f.w) v = ru(); } } return x; }
};
static bool rdAll(int fd, char* b, size_t n) { while (n) { ssize_t k = read(fd, b, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } b += k; n -= k; } return true; }
static bool wrAll(int fd, const char* b, size_t n) { while (n) { ssize_t k = write(fd, b, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } b += k; n -= k; } return true; }
static bool sendMsg(int fd, const std::string& s) { uint64_t n = s.size(); return wrAll(fd, (char*)&n, 8) && wrAll(fd, s.data(), n); }
static bool recvMsg(int fd, std::string& s) { uint64_t n; if (!rdAll(fd, (char*)&n, 8)) return false; s.resize(n); return rdAll(fd, &s[0], n); }

// ---- statistics of one entry
struct Stats {
  uint64_t ok = 0, infeasible = 0, violation = 0, cut = 0, instrs = 0, decisions = 0, assertUnknown = 0, feasUnknown = 0, throws_ = 0, symPaths = 0, pruned = 0;
  std::map<std::string, uint64_t> cuts, covers, unknownAsserts, fns;
  std::map<std::string, std::pair<uint64_t, uint64_t>> asserts;
  std::vector<Violation> viol; std::vector<std::string> samples;
  SolverStats sv;
  void put(Buf& b) {
    for (uint64_t v : {ok, infeasible, violation, cut, instrs, decisions, assertUnknown, feasUnknown, throws_, symPaths, pruned}) b.u(v);
    for (auto* m : {&cuts, &covers, &unknownAsserts, &fns}) { b.u(m->size()); for (auto& p : *m) { b.str(p.first); b.u(p.second); } }
    b.u(asserts.size()); for (auto& p : asserts) { b.str(p.first); b.u(p.second.first); b.u(p.second.second); }
    b.u(viol.size()); for (auto& v : viol) { b.str(v.kind); b.str(v.msg); b.str(v.where); b.str(v.witness); b.str(v.key); }
    b.u(samples.size()); for (auto& s : samples) b.str(s);
    for (uint64_t v : {sv.queries, sv.cacheHits, sv.modelHits, sv.sat, sv.unsat, sv.unknown}) b.u(v); b.d(sv.time); b.d(sv.maxTime);
  }
  void add(Buf& b) {
    for (uint64_t* v : {&ok, &infeasible, &violation, &cut, &instrs, &decisions, &assertUnknown, &feasUnknown, &throws_, &symPaths, &pruned}) *v += b.ru();
    for (auto* m : {&cuts, &covers, &unknownAsserts, &fns}) { uint64_t n = b.ru(); while (n--) { std::string k = b.rstr(); (*m)[k] += b.ru(); } }
    uint64_t n = b.ru(); while (n--) { std::string k = b.rstr(); auto& a = asserts[k]; a.first += b.ru(); a.second += b.ru(); }
    n = b.ru(); while (n--) { Violation v; v.kind = b.rstr(); v.msg = b.rstr(); v.where = b.rstr(); v.witness = b.rstr(); v.key = b.rstr(); addViol(v); }
    n = b.ru(); while (n--) samples.push_back(b.rstr());
    for (uint64_t* v : {&sv.queries, &sv.cacheHits, &sv.modelHits, &sv.sat, &sv.unsat, &sv.unknown}) *v += b.ru(); sv.time += b.rd(); sv.maxTime = std::max(sv.maxTime, b.rd());
  }
  void addViol(Violation& v) { int n = 0; for (auto& x : viol) if (x.key == v.key) n++; if (n < 12) viol.push_back(v); }
};
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static std::vector<Entry> entries;

// a worker explores the subtree under a prefix for a slice of time and returns what is left
static void worker(Module* M, int in, int out) {
  Solver S; Exec* X = nullptr; Options base; X = new Exec(M, S, base);
  std::string msg; uint64_t npath = 0;
  while (recvMsg(in, msg)) {
    Buf b; b.s = msg; unsigned ei = b.ru(); double slice = b.rd(); double deadline = b.rd(); bool wantSamples = b.ru(); uint64_t np = b.ru(); std::vector<Prefix> stack; while (np--) stack.push_back(b.rpre());
    Entry& E = entries[ei]; g_realMode = E.real; g_roundModel = E.round; X->opt = E.opt; S.timeoutMs = E.opt.queryMs;
    Stats st; double t0 = now(); X->deadline = deadline; S.st = SolverStats();
    unsigned left = wantSamples ? E.samples : 0; uint64_t done = 0;
    while (!stack.empty()) {
      Prefix p = std::move(stack.back()); stack.pop_back();
      size_t plen = p.size();
      X->covers.clear(); X->asserts.clear(); X->assertUnknown = X->feasUnknown = 0; X->unknownAsserts.clear(); X->repoFns.clear(); X->throwsSeen = 0;
      auto r = X->run(E.name, p); npath++; done++;
      st.instrs += r.instrs; st.decisions += X->trail.size() > plen ? X->trail.size() - plen : 0; st.throws_ += X->throwsSeen;
      if (!X->pc.empty()) st.symPaths++;
      switch (r.end) {
        case End::Ok: st.ok++; break; case End::Infeasible: st.infeasible++; break; case End::Pruned: st.pruned++; break; case End::Violation: st.violation++; break;
        case End::Cut: st.cut++; st.cuts[r.why]++; break;
      }
      for (auto& c : X->covers) if (r.end != End::Infeasible || c.first.rfind("expect:", 0) == 0) st.covers[c.first] += c.second; // an expectation counts even when its own path turns out infeasible
      for (auto& a : X->asserts) { auto& q = st.asserts[a.first]; q.first += a.second.first; q.second += a.second.second; }
      for (auto& a : X->unknownAsserts) st.unknownAsserts[a.first] += a.second;
      for (auto& a : X->repoFns) st.fns[a.first] += a.second;
      st.assertUnknown += X->assertUnknown; st.feasUnknown += X->feasUnknown;
      for (auto& v : X->violations) st.addViol(v);
      if (left && r.end == End::Ok && X->violations.empty()) { std::string w; if (X->pathWitness(w)) { st.samples.push_back(w); left--; } }
      for (auto& a : X->newAlternatives) stack.push_back(std::move(a));
      double t = now();
      if (t - t0 > slice || t > deadline) break;
      if (numExprs() > 6000000) break;
    }
    st.sv = S.st;
    Buf o; o.u(stack.size()); for (auto& p : stack) o.pre(p); st.put(o);
    bool restart = numExprs() > 3000000; // bound memory: the master forks a fresh worker
    o.u(restart);
    if (!sendMsg(out, o.s)) _exit(0);
    if (restart) _exit(0);
  }
  _exit(0);
}
struct W { pid_t pid = 0; int in = -1, out = -1; bool busy = false; unsigned entry = 0; };
static Module* gM;
static void spawn(W& w) {
  int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); exit(3); }
  pid_t p = fork();
  if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(a[1]); close(b[0]); worker(gM, a[0], b[1]); _exit(0); }
  close(a[0]); close(b[1]); w.pid = p; w.in = a[1]; w.out = b[0]; w.busy = false;
}
// Cleanup passes before execution. Library code is inlined into its callers and small branch diamonds become
// selects, so that data-dependent bit operations do not fork paths; functions of the project itself stay calls.
static void optimise(Module& M, bool inl) {
  const char* av[] = {"symx", "-two-entry-phi-node-folding-threshold=0", "-phi-node-folding-threshold=0", "-inline-threshold=250"};
  cl::ParseCommandLineOptions(4, av);
  std::set<std::string> keep; for (auto& e : entries) keep.insert(e.name);
  for (Function& F : M) {
    if (F.isDeclaration()) continue;
    std::string n = F.getName().str();
    bool own = n.rfind("_ZN3k52", 0) == 0 || n.rfind("_ZNK3k52", 0) == 0 || keep.count(n);
    for (auto* q : {"5boost4shim", "5boost5mutex", "5boost18condition_variable", "N5boost6thread", "5boost11this_thread", "5boost15recursive_mutex"}) own |= n.find(q) != std::string::npos;
    if (own) F.addFnAttr(Attribute::NoInline); else if (!F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::NoInline);
    if (!keep.count(n)) F.setLinkage(GlobalValue::InternalLinkage), F.setComdat(nullptr);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char* scfg = "simplifycfg<hoist-common-insts;sink-common-insts;no-switch-to-lookup;keep-loops;no-speculate-blocks;simplify-cond-branch>";
  std::string p = std::string("globaldce,function(sroa,early-cse,simplifycfg)") + (inl ? std::string(",cgscc(inline),globaldce,function(sroa,early-cse,") + scfg + ",early-cse," + scfg + ")" : "") + ",globaldce";
  if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(e)) << "\n"; exit(3); }
  MPM.run(M, MAM);
}
int main(int argc, char** argv) {
  std::string bc, out = "-", dump; bool inl = true; int jobs = 8; double timeLimit = 1e9; signal(SIGPIPE, SIG_IGN);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--bc") bc = argv[++i]; else if (a == "--no-inline") inl = false; else if (a == "--dump") dump = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--time") timeLimit = atof(argv[++i]);
    else {
      Entry e; size_t c = a.find(':'); e.name = a.substr(0, c);
      std::string o = c == std::string::npos ? "" : a.substr(c + 1);
      while (!o.empty()) {
        size_t k = o.find(','); std::string t = o.substr(0, k); o = k == std::string::npos ? "" : o.substr(k + 1);
        std::string key = t.substr(0, t.find('=')); double v = t.find('=') == std::string::npos ? 1 : atof(t.c_str() + t.find('=') + 1);
        if (key == "real") e.real = true; else if (key == "round") e.real = e.round = true; else if (key == "overflow") e.opt.overflow = true; else if (key == "race") e.opt.race = true; else if (key == "cache") e.opt.cache = true; else if (key == "nomerge") e.opt.merge = 0; else if (key == "mergefp") e.opt.merge = 2;
        else if (key == "ms") e.opt.queryMs = v; else if (key == "feas") e.opt.feasMs = v; else if (key == "instr") e.opt.maxInstr = v; else if (key == "paths") e.maxPaths = v; else if (key == "time") e.maxTime = v; else if (key == "samples") e.samples = v; else if (key == "depth") e.opt.maxDepth = v; else if (key == "conc") e.opt.maxConc = v;
        else if (!key.empty()) { fprintf(stderr, "unknown option %s\n", key.c_str()); return 3; }
      }
      entries.push_back(e);
    }
  }
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(bc, err, C);
  if (!M) { err.print("symx", errs()); return 3; }
  optimise(*M, inl); if (!dump.empty()) { std::error_code ec; raw_fd_ostream os(dump, ec); M->print(os, nullptr); }
  gM = M.get(); for (auto& e : entries) if (e.opt.cache) { Exec::cacheInit(); break; }
  for (auto& e : entries) { auto* F = M->getFunction(e.name); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", e.name.c_str()); return 3; } }
  size_t n = entries.size(); std::vector<Stats> st(n); std::vector<std::deque<Prefix>> todo(n); std::vector<double> used(n, 0), wall0(n, -1), wall1(n, 0); std::vector<uint64_t> paths(n, 0), busyN(n, 0); std::vector<char> incomplete(n, 0), stopped(n, 0); std::vector<std::string> crash(n);
  for (auto& t : todo) t.push_back({});
  std::vector<W> ws(jobs); for (auto& w : ws) spawn(w);
  double T0 = now(); size_t rr = 0;
  std::vector<std::vector<std::vector<Prefix>>> inflight(jobs, std::vector<std::vector<Prefix>>());
  for (;;) {
    double t = now() - T0;
    // hand out work
    size_t total = 0; for (auto& q : todo) total += q.size();
    for (size_t wi = 0; wi < ws.size(); wi++) { W& w = ws[wi]; if (!w.busy) {
      int ei = -1; for (size_t k = 0; k < n; k++) { size_t j = (rr + k) % n; if (!todo[j].empty()) { ei = j; break; } }
      if (ei < 0) break;
      rr = ei + 1;
      if (wall0[ei] < 0) wall0[ei] = now();
      bool stop = t > timeLimit || used[ei] > entries[ei].maxTime || paths[ei] > entries[ei].maxPaths || stopped[ei];
      if (stop) { incomplete[ei] = 1; todo[ei].clear(); continue; }
      Buf b; b.u(ei); double slice = total > 64 ? 1.0 : total > 8 ? 0.3 : 0.05; b.d(slice); b.d(T0 + timeLimit); b.u(st[ei].samples.size() < entries[ei].samples);
      size_t give = std::max<size_t>(1, std::min<size_t>(todo[ei].size() / (2 * jobs), 64)); std::vector<Prefix> g;
      // deepest first keeps memory small; the oldest prefixes (largest subtrees) are spread over workers
      b.u(give); for (size_t k = 0; k < give; k++) { Prefix p = std::move(todo[ei].front()); todo[ei].pop_front(); b.pre(p); g.push_back(std::move(p)); }
      inflight[wi] = {g};
      w.busy = true; w.entry = ei; busyN[ei]++;
      if (!sendMsg(w.in, b.s)) { perror("send"); return 3; }
    } }
    bool any = false; for (auto& w : ws) any |= w.busy;
    if (!any) { size_t tot = 0; for (auto& q : todo) tot += q.size(); if (!tot) break; continue; }
    std::vector<pollfd> pf; std::vector<int> idx; for (size_t i = 0; i < ws.size(); i++) if (ws[i].busy) { pf.push_back({ws[i].out, POLLIN, 0}); idx.push_back(i); }
    poll(pf.data(), pf.size(), 500);
    for (size_t k = 0; k < pf.size(); k++) if (pf[k].revents) {
      W& w = ws[idx[k]]; std::string m; unsigned ei = w.entry; wall1[ei] = now();
      if (!recvMsg(w.out, m)) { // the worker died
        int ws_ = 0; waitpid(w.pid, &ws_, 0); crash[ei] = "engine worker ended abnormally (status " + std::to_string(ws_) + ")"; stopped[ei] = 1; incomplete[ei] = 1; close(w.in); close(w.out); busyN[ei]--; spawn(w); continue;
      }
      Buf b; b.s = m; uint64_t np = b.ru(); std::vector<Prefix> rest; while (np--) rest.push_back(b.rpre());
      uint64_t before = st[ei].ok + st[ei].infeasible + st[ei].violation + st[ei].cut + st[ei].pruned; double s0 = st[ei].sv.time; (void)s0;
      st[ei].add(b); paths[ei] = st[ei].ok + st[ei].infeasible + st[ei].violation + st[ei].cut + st[ei].pruned; (void)before;
      for (auto& p : rest) todo[ei].push_back(std::move(p));
      bool restart = b.ru(); w.busy = false; busyN[ei]--; used[ei] = now() - wall0[ei];
      if (st[ei].viol.size() >= 24) stopped[ei] = 1;
      if (restart) { close(w.in); close(w.out); waitpid(w.pid, nullptr, 0); spawn(w); }
    }
  }
  for (auto& w : ws) { close(w.in); close(w.out); kill(w.pid, SIGKILL); waitpid(w.pid, nullptr, 0); }
  FILE* f = out == "-" ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"wall_s\": %.3f, \"entries\": [", now() - T0);
  for (size_t i = 0; i < n; i++) {
    Stats& s = st[i];
    fprintf(f, "%s\n{\"entry\": %s, \"real\": %s, \"round\": %s, \"overflow\": %s, \"complete\": %s, \"crash\": %s, \"wall_s\": %.3f,\n \"paths\": {\"ok\": %llu, \"infeasible\": %llu, \"violation\": %llu, \"cut\": %llu, \"merged_schedules\": %llu}, \"sym_paths\": %llu, \"instructions\": %llu, \"decisions\": %llu, \"throws\": %llu, \"assert_unknown\": %llu, \"feas_unknown\": %llu,\n", i ? "," : "", js(entries[i].name).c_str(), entries[i].real ? "true" : "false", entries[i].round ? "true" : "false", entries[i].opt.overflow ? "true" : "false", incomplete[i] ? "false" : "true", js(crash[i]).c_str(), wall1[i] - wall0[i],
            (unsigned long long)s.ok, (unsigned long long)s.infeasible, (unsigned long long)s.violation, (unsigned long long)s.cut, (unsigned long long)s.pruned, (unsigned long long)s.symPaths, (unsigned long long)s.instrs, (unsigned long long)s.decisions, (unsigned long long)s.throws_, (unsigned long long)s.assertUnknown, (unsigned long long)s.feasUnknown);
    fprintf(f, " \"solver\": {\"queries\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"time_s\": %.3f, \"max_s\": %.3f},\n", (unsigned long long)s.sv.queries, (unsigned long long)s.sv.cacheHits, (unsigned long long)s.sv.modelHits, (unsigned long long)s.sv.sat, (unsigned long long)s.sv.unsat, (unsigned long long)s.sv.unknown, s.sv.time, s.sv.maxTime);
    auto mp = [&](const char* k, std::map<std::string, uint64_t>& m, bool dem) { fprintf(f, " \"%s\": {", k); bool first = true; for (auto& p : m) { fprintf(f, "%s%s: %llu", first ? "" : ", ", js(dem ? demangle(p.first) : p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "},\n"); };
    mp("cuts", s.cuts, false); mp("covers", s.covers, false); mp("unknown_asserts", s.unknownAsserts, false);
    { std::map<std::string, uint64_t> d; for (auto& p : s.fns) d[demangle(p.first)] += p.second; mp("functions", d, false); }
    fprintf(f, " \"asserts\": {"); bool first = true; for (auto& p : s.asserts) { fprintf(f, "%s%s: [%llu, %llu]", first ? "" : ", ", js(p.first).c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second); first = false; } fprintf(f, "},\n");
    fprintf(f, " \"violations\": ["); first = true; for (auto& v : s.viol) { fprintf(f, "%s{\"kind\": %s, \"msg\": %s, \"where\": %s, \"witness\": %s}", first ? "" : ",\n  ", js(v.kind).c_str(), js(v.msg).c_str(), js(v.where).c_str(), js(v.witness).c_str()); first = false; } fprintf(f, "],\n");
    fprintf(f, " \"samples\": ["); first = true; for (auto& v : s.samples) { fprintf(f, "%s%s", first ? "" : ",\n  ", js(v).c_str()); first = false; } fprintf(f, "]}");
  }
  fprintf(f, "\n]}\n"); if (f != stdout) fclose(f);
  return 0;
}
