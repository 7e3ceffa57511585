// Support for shadow/boost/thread.hpp (engine and native replay).
#include <boost/thread.hpp>
#ifdef __SANITIZE_THREAD__
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); }
#endif
extern "C" { int sym_spurious_budget = 0; }
namespace boost { namespace shim {
static tinfo* infos[64];
SHIM tinfo*& self() { return infos[sym_thread_self()]; }
SHIM void check() { tinfo* t = self(); if (t && t->intEnabled && t->interrupted) { t->interrupted = 0; throw thread_interrupted(); } }
SHIM void start(void* p) {
  tinfo* t = static_cast<tinfo*>(p);
  self() = t;
  try { t->f(); } catch (thread_interrupted&) {}
  release(t); t->done = 1; self() = nullptr;
}
#if defined SYM_ENGINE
#elif defined __SANITIZE_THREAD__
void acquire(const void* p) { __tsan_acquire(const_cast<void*>(p)); }
void release(const void* p) { __tsan_release(const_cast<void*>(p)); }
#else
void acquire(const void*) {}
void release(const void*) {}
#endif
}}
