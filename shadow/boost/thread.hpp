// Boost.Thread over the scheduler of the symbolic engine: a thread runs until its next synchronisation
// operation; which enabled thread continues is a symbolic choice.
#pragma once
#include <cstddef>
#include <exception>
#include <functional>
#include <memory>
#include <tuple>
#include <utility>
#include <vector>
#include "sym.h"
extern "C" unsigned sym_hw_concurrency;
extern "C" int sym_spurious_budget;
// The operations' own bookkeeping is no memory of the program: ThreadSanitizer and the engine's race check skip it.
#if defined __SANITIZE_THREAD__
#define SHIM __attribute__((no_sanitize("thread"), noinline))
#else
#define SHIM
#endif
namespace boost {
struct thread_interrupted {};
struct thread_resource_error : std::exception {};
struct lock_error : std::exception {};
namespace shim {
struct waiter { int signalled; waiter* next; };
struct tinfo { int done = 0, interrupted = 0, intEnabled = 1; int* wake = nullptr; std::function<void()> f; };
tinfo*& self();
void yield();
void check();
void start(void* p);
// annotations for the replay under ThreadSanitizer
void acquire(const void*); void release(const void*);
}
class mutex {
 public:
  mutable int free_ = 1; mutable int owner_ = -1;
  mutex() {}
  mutex(const mutex&) = delete; mutex& operator=(const mutex&) = delete;
  SHIM void lock() const { if (!free_ && owner_ == sym_thread_self()) sym_fail("self-deadlock: locking a mutex this thread already holds"); sym_sched_wait(&free_); free_ = 0; owner_ = sym_thread_self(); shim::acquire(this); }
  SHIM bool try_lock() const { sym_sched_wait(nullptr); if (!free_) return false; free_ = 0; owner_ = sym_thread_self(); shim::acquire(this); return true; }
  SHIM void unlock() const { if (free_ || owner_ != sym_thread_self()) sym_fail("unlocking a mutex this thread does not hold"); shim::release(this); owner_ = -1; free_ = 1; }
  SHIM ~mutex() { if (!free_) sym_fail("destroying a locked mutex"); }
  class scoped_lock_t;
  typedef scoped_lock_t scoped_lock;
};
struct defer_lock_t {}; struct adopt_lock_t {}; struct try_to_lock_t {};
static const defer_lock_t defer_lock = {}; static const adopt_lock_t adopt_lock = {}; static const try_to_lock_t try_to_lock = {};
template <class M> class unique_lock {
  const M* m_; bool own_;
 public:
  unique_lock() : m_(nullptr), own_(false) {}
  explicit unique_lock(const M& m) : m_(&m), own_(false) { lock(); }
  unique_lock(const M& m, defer_lock_t) : m_(&m), own_(false) {}
  unique_lock(const M& m, adopt_lock_t) : m_(&m), own_(true) {}
  unique_lock(const M& m, try_to_lock_t) : m_(&m), own_(m.try_lock()) {}
  unique_lock(unique_lock&& o) : m_(o.m_), own_(o.own_) { o.m_ = nullptr; o.own_ = false; }
  unique_lock& operator=(unique_lock&& o) { if (own_) unlock(); m_ = o.m_; own_ = o.own_; o.m_ = nullptr; o.own_ = false; return *this; }
  unique_lock(const unique_lock&) = delete;
  ~unique_lock() { if (own_) m_->unlock(); }
  void lock() { if (own_) throw lock_error(); m_->lock(); own_ = true; }
  bool try_lock() { own_ = m_->try_lock(); return own_; }
  void unlock() { if (!own_) throw lock_error(); own_ = false; m_->unlock(); }
  bool owns_lock() const { return own_; }
  explicit operator bool() const { return own_; }
};
class mutex::scoped_lock_t : public unique_lock<mutex> { public: using unique_lock<mutex>::unique_lock; };
template <class M> class lock_guard { const M& m_; public: explicit lock_guard(const M& m) : m_(m) { m.lock(); } lock_guard(const M& m, adopt_lock_t) : m_(m) {} ~lock_guard() { m_.unlock(); } lock_guard(const lock_guard&) = delete; };
class recursive_mutex {
  mutable mutex m_; mutable int n_ = 0;
 public:
  SHIM void lock() const { if (!m_.free_ && m_.owner_ == sym_thread_self()) { n_++; return; } m_.lock(); n_ = 1; }
  SHIM void unlock() const { if (--n_ == 0) m_.unlock(); }
  typedef unique_lock<recursive_mutex> scoped_lock;
};
class condition_variable {
  shim::waiter* head_ = nullptr;
  SHIM void remove(shim::waiter* w) { for (shim::waiter** p = &head_; *p; p = &(*p)->next) if (*p == w) { *p = w->next; return; } }
 public:
  condition_variable() {}
  condition_variable(const condition_variable&) = delete;
  ~condition_variable() {}
  template <class L> SHIM void wait(L& l) {
    shim::check();
    if (!l.owns_lock()) throw lock_error();
    shim::waiter w{0, head_}; head_ = &w;
    shim::tinfo* t = shim::self(); if (t && t->intEnabled) t->wake = &w.signalled;
    bool spur = sym_spurious_budget > 0 && sym_choice("spurious_wakeup", 2) == 1;
    if (spur) { sym_spurious_budget--; w.signalled = 1; }
    l.unlock();
    sym_sched_wait(&w.signalled);
    remove(&w); if (t) t->wake = nullptr;
    l.lock();
    shim::check();
  }
  template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
  SHIM void notify_one() { sym_sched_wait(nullptr);
    int n = 0; for (shim::waiter* w = head_; w; w = w->next) if (!w->signalled) n++;
    if (!n) return;
    int k = sym_choice("notify", n);
    for (shim::waiter* w = head_; w; w = w->next) if (!w->signalled && k-- == 0) { w->signalled = 1; return; }
  }
  SHIM void notify_all() { sym_sched_wait(nullptr); for (shim::waiter* w = head_; w; w = w->next) w->signalled = 1; }
};
typedef condition_variable condition_variable_any;
typedef condition_variable condition;
class thread {
  shim::tinfo* t_ = nullptr;
 public:
  typedef int id;
  thread() noexcept {}
  template <class F, class... A> SHIM explicit thread(F f, A... a) {
    t_ = new shim::tinfo;
    t_->f = [f, a...]() mutable { std::invoke(f, a...); };
    sym_thread_create(&shim::start, t_);
  }
  thread(thread&& o) noexcept : t_(o.t_) { o.t_ = nullptr; }
  thread& operator=(thread&& o) noexcept { t_ = o.t_; o.t_ = nullptr; return *this; }
  thread(const thread&) = delete;
  ~thread() {}
  bool joinable() const { return t_ != nullptr; }
  SHIM void join() { if (!t_) return; shim::check(); sym_sched_wait(&t_->done); shim::acquire(t_); t_ = nullptr; }
  void detach() { t_ = nullptr; }
  SHIM void interrupt() { if (!t_) return; sym_sched_wait(nullptr); t_->interrupted = 1; if (t_->wake) *t_->wake = 1; }
  SHIM bool interruption_requested() const { return t_ && t_->interrupted; }
  static unsigned hardware_concurrency() noexcept { return sym_hw_concurrency; }
  static unsigned physical_concurrency() noexcept { return sym_hw_concurrency; }
  id get_id() const { return t_ ? 1 : 0; }
  void swap(thread& o) { std::swap(t_, o.t_); }
};
namespace this_thread {
inline void interruption_point() { sym_sched_wait(nullptr); shim::check(); }
inline bool interruption_requested() { return shim::self() && shim::self()->interrupted; }
inline bool interruption_enabled() { return shim::self() && shim::self()->intEnabled; }
inline void yield() { sym_sched_wait(nullptr); }
inline int get_id() { return sym_thread_self(); }
class disable_interruption { int old_; public: disable_interruption() : old_(shim::self() ? shim::self()->intEnabled : 0) { if (shim::self()) shim::self()->intEnabled = 0; } ~disable_interruption() { if (shim::self()) shim::self()->intEnabled = old_; } };
class restore_interruption { public: explicit restore_interruption(disable_interruption&) { if (shim::self()) shim::self()->intEnabled = 1; } ~restore_interruption() { if (shim::self()) shim::self()->intEnabled = 0; } };
}
class thread_group {
  std::vector<std::shared_ptr<thread>> v_;
 public:
  template <class F> thread* create_thread(F f) { v_.push_back(std::make_shared<thread>(f)); return v_.back().get(); }
  void add_thread(thread* t) { v_.push_back(std::shared_ptr<thread>(t)); }
  void join_all() { for (auto& t : v_) t->join(); }
  void interrupt_all() { for (auto& t : v_) t->interrupt(); }
  size_t size() const { return v_.size(); }
};
}
