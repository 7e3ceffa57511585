// Native replay of a witness produced by the engine: every sym_* input comes from the witness file.
#include <pthread.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include "sym.h"
// Nothing in this file is memory or synchronisation of the program under ThreadSanitizer.
#ifdef __SANITIZE_THREAD__
extern "C" { void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int); void AnnotateIgnoreSyncBegin(const char*, int); void AnnotateIgnoreSyncEnd(const char*, int); }
struct Ign { Ign() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); AnnotateIgnoreSyncBegin("", 0); } ~Ign() { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } };
#else
struct Ign { ~Ign() {} };
#endif
struct Ev { std::string name; bool dbl; long i; double d; };
static std::vector<Ev> evs; static size_t pos = 0; static bool diverged = false;
static void out(const std::string& s) { std::string t = s + "\n"; size_t n = write(1, t.data(), t.size()); (void)n; }
static void load() {
  static bool done = false; if (done) return; done = true;
  const char* f = getenv("SYM_WITNESS"); if (!f) return;
  FILE* p = fopen(f, "r"); if (!p) { out("REPLAY-ERROR no witness"); _exit(3); }
  char line[4096];
  while (fgets(line, sizeof line, p)) {
    char name[2048], val[512]; if (sscanf(line + 2, "%2047s %511s", name, val) != 2) continue;
    if (line[0] == 'I') evs.push_back({name, false, atol(val), 0}); else if (line[0] == 'D') evs.push_back({name, true, 0, strtod(val, 0)});
  }
  fclose(p);
}
static std::string key(const char* n) { std::string s; for (; *n; n++) s += *n == ' ' ? '_' : *n; return s; }
static Ev* next(const char* n) {
  load(); std::string k = key(n);
  for (size_t p = pos; p < evs.size(); p++) if (evs[p].name == k) { if (p != pos) { if (!diverged) out("REPLAY-DIVERGED at " + k); diverged = true; } pos = p + 1; return &evs[p]; }
  if (!diverged) out("REPLAY-DIVERGED no value for " + k); diverged = true; return 0;
}
static bool rnd() { static int r = -1; if (r < 0) { const char* s = getenv("SYM_RANDOM"); r = s != 0; if (s) srandom(atoi(s)); } return r; }
static long rndIn(long lo, long hi) { unsigned long u = ((unsigned long)random() << 31 ^ random()) << 2 ^ random(); return random() % 8 == 0 ? lo : random() % 8 == 0 ? hi : (long)(lo + u % ((unsigned long)hi - lo + 1)); }
extern "C" {
static void viol(const std::string& s) { out("REPLAY-VIOLATION " + s); _exit(77); }
int sym_int(const char* n, int lo, int hi) { Ign ign; if (rnd()) return (int)rndIn(lo, hi); Ev* e = next(n); return e ? (int)e->i : lo; }
long sym_i64(const char* n, long lo, long hi) { Ign ign; if (rnd()) return rndIn(lo, hi); Ev* e = next(n); return e ? e->i : lo; }
int sym_bool(const char* n) { Ign ign; if (rnd()) return random() & 1; Ev* e = next(n); return e ? (int)(e->i & 1) : 0; }
double sym_double(const char* n, double lo, double hi) { Ign ign; if (rnd()) return std::isfinite(hi - lo) ? lo + (hi - lo) * (random() / 2147483647.0) : lo; Ev* e = next(n); return e ? e->d : lo; }
double sym_double_any(const char* n) { Ign ign; if (rnd()) return (random() - 1073741824.0) / (1 << random() % 31); Ev* e = next(n); return e ? e->d : 0; }
double sym_uf(const char* n, int k, const double* a, double lo, double hi) { Ign ign;
  static std::map<std::pair<std::string, std::vector<double>>, double> memo;
  std::vector<double> v; for (int i = 0; i < k; i++) v.push_back(a[i] == 0 ? 0.0 : a[i]);
  auto id = std::make_pair(std::string(n), v); auto it = memo.find(id);
  if (it != memo.end()) { load(); if (pos < evs.size() && evs[pos].name == key(n)) pos++; return it->second; }
  Ev* e = rnd() ? 0 : next(n); double r = rnd() ? sym_double(n, lo, hi) : e ? e->d : (std::isfinite(lo) ? lo : 0); memo[id] = r; return r;
}
int sym_choice(const char* n, int k) { Ign ign; if (rnd()) return random() % k; Ev* e = next(n); int r = e ? (int)e->i : 0; return r < k ? r : 0; }
int sym_concretize(int v) { Ign ign; return v; }
void sym_assume(int c) { Ign ign; if (!c) { out("REPLAY-INFEASIBLE"); _exit(66); } }
void sym_assert(int c, const char* m) { Ign ign; if (!c) viol(std::string("assertion: ") + m); }
void sym_assert_close(double a, double b, double tol, const char* m) { Ign ign; if (!(std::fabs(a - b) <= tol)) { char s[100]; snprintf(s, sizeof s, " (%.17g vs %.17g)", a, b); viol(std::string("assertion: ") + m + s); } }
void sym_cover(const char* n) { Ign ign; if (rnd()) out("C " + key(n)); }
void sym_observe_int(const char* n, long v) { Ign ign; out("O " + key(n) + " " + std::to_string(v)); }
void sym_observe(const char* n, double v) { Ign ign; char s[64]; snprintf(s, sizeof s, "%a", v); out("P " + key(n) + " " + s); }
void sym_fail(const char* m) { Ign ign; viol(std::string("assertion: ") + m); }
void sym_cut(const char*) { Ign ign; out("REPLAY-CUT"); _exit(0); }
void sym_done() { out("REPLAY-OK"); _exit(0); }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
double sym_select(int c, double a, double b) { return c ? a : b; }
int sym_is_symbolic() { return 0; }
unsigned long sym_mem_size(const void*) { Ign ign; return ~0UL; }

// threads: real pthreads, one running at a time, handing over as the witness says.
// The baton uses relaxed atomics only, so that ThreadSanitizer sees no ordering from it.
struct T { pthread_t p; void (*f)(void*); void* arg; int* wait; bool done; };
static T ths[64]; static int nth = 1; static int cur = 0; static __thread int me = 0;
int sym_thread_self() { Ign ign; return __atomic_load_n(&cur, __ATOMIC_RELAXED); }
__attribute__((no_sanitize("thread"))) static void pick() { Ign ign;
  std::vector<int> en; for (int i = 0; i < nth; i++) { int j = (cur + i) % nth; if (!ths[j].done && (!ths[j].wait || *ths[j].wait)) en.push_back(j); }
  if (en.empty()) viol("deadlock: no thread can make progress");
  int t = en[0];
  if (en.size() > 1 && rnd()) t = en[random() % en.size()]; else if (en.size() > 1) { Ev* e = next("sched"); t = e ? (int)e->i : en[0]; bool ok = false; for (int x : en) ok |= x == t; if (!ok) { if (!diverged) out("REPLAY-DIVERGED schedule"); diverged = true; t = en[0]; } }
  ths[t].wait = 0; __atomic_store_n(&cur, t, __ATOMIC_RELAXED);
}
static void waitTurn() { Ign ign; while (__atomic_load_n(&cur, __ATOMIC_RELAXED) != me) { usleep(20); } }
static void* entry(void* a) {
  me = (int)(long)a; waitTurn(); void (*f)(void*); void* arg; { Ign ign; f = ths[me].f; arg = ths[me].arg; } f(arg); { Ign ign; ths[me].done = true; pick(); } return 0;
}
int sym_thread_create(void (*f)(void*), void* arg) {
  int id; { Ign ign; id = nth++; ths[id] = {0, f, arg, 0, false}; }
  pthread_t p; pthread_create(&p, 0, entry, (void*)(long)id); pthread_detach(p); return id;
}
void sym_sched_wait(int* flag) { Ign ign; ths[me].wait = flag; pick(); waitTurn(); }
int sym_thread_done(int i) { Ign ign; return i < nth && ths[i].done; }
}
extern "C" { typedef void (*Fn)(); struct Tab { const char* n; Fn f; }; extern Tab sym_entries[]; }
int main(int argc, char** argv) {
  load();
  for (Tab* t = sym_entries; t->n; t++) if (!strcmp(t->n, argv[1])) { t->f(); out("REPLAY-OK"); fflush(0); _exit(0); }
  out("REPLAY-ERROR no entry"); return 3;
}
