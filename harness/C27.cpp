/*CHECK
{"sources": ["src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp", "parallel/thread"], "sanitize": "thread",
 "bounds": "creation, batches and destruction of thread pools: 2 workers with 0..3 tasks (thorough 5), 3 workers with 0..1 tasks (thorough 3), 4 workers without tasks (thorough 2 tasks), a pool template of one worker with 0..3 tasks, two spurious wake-ups; batches of up to 3 tasks of which any throw a std::exception or another value; every schedule at the synchronisation operations up to exchanging independent steps and up to reaching a state already explored; happens-before races for 2 workers without a batch and with one task (thorough) and 1 worker with 0..2 tasks",
 "assumptions": ["Boost.Thread is replaced by shadow/boost/thread.hpp, whose operations follow the documented semantics of mutex, condition variable, interruption and join"],
 "entries": [
  {"name": "c27_shutdown", "opts": "overflow,race", "covers": ["joined"], "bounds": "2 workers, no batch or an empty one, happens-before races"},
  {"name": "c27_tasks", "opts": "overflow,cache", "covers": ["joined"], "bounds": "2 workers, 0..3 tasks"},
  {"name": "c27_tasks5", "opts": "overflow,cache,paths=100000000", "tier": "thorough", "covers": ["joined"], "bounds": "2 workers, 5 tasks"},
  {"name": "c27_race", "opts": "overflow,race,paths=100000000", "tier": "thorough", "covers": ["joined"], "bounds": "2 workers, 1 task, happens-before races"},
  {"name": "c27_three", "opts": "overflow,cache", "covers": ["joined"], "bounds": "3 workers, 0..1 tasks"},
  {"name": "c27_three3", "opts": "overflow,cache,paths=100000000", "tier": "thorough", "covers": ["joined"], "bounds": "3 workers, 3 tasks"},
  {"name": "c27_four", "opts": "overflow,cache", "covers": ["joined"], "bounds": "4 workers, no batch"},
  {"name": "c27_four2", "opts": "overflow,cache,paths=100000000", "tier": "thorough", "covers": ["joined"], "bounds": "4 workers, 2 tasks"},
  {"name": "c27_spurious", "opts": "overflow,cache", "covers": ["joined"], "bounds": "2 workers, 0..1 tasks, two spurious wake-ups"},
  {"name": "c27_single", "opts": "overflow,race", "covers": ["joined"], "bounds": "1 worker, 0..2 tasks, happens-before races"},
  {"name": "c27_single3", "opts": "overflow,cache", "covers": ["joined"], "bounds": "1 worker, 3 tasks, one spurious wake-up"},
  {"name": "c27_invalid", "opts": "overflow", "covers": ["refused"], "bounds": "every number of workers below 1"},
  {"name": "c27_throwing", "opts": "overflow,cache", "covers": ["exception", "other value"], "bounds": "2 workers, one throwing task, then a good batch and destruction"},
  {"name": "c27_throwing2", "opts": "overflow,cache", "covers": ["exception", "none"], "bounds": "2 workers, 2 tasks of which any throw, then destruction"},
  {"name": "c27_throwing3", "opts": "overflow,cache", "tier": "thorough", "covers": ["exception", "none"], "bounds": "2 workers, 3 tasks of which any throw, then destruction"},
  {"name": "c27_throwing_race", "opts": "overflow,race,paths=100000000", "tier": "thorough", "covers": ["exception"], "bounds": "2 workers, one throwing task, happens-before races"},
  {"name": "c27_sequential", "opts": "overflow", "covers": ["exception", "none"], "bounds": "sequential pool, 3 tasks of which any throw"}
 ]}
*/
#include "pool_util.h"
static bool joined() { for (int i = 1; i < 8; i++) if (sym_is_symbolic() && i <= (int)sym_hw_concurrency && !sym_thread_done(i)) return false; return true; }
static void life(int workers, int n) { { IWorkerPool::shared_ptr p = threads(workers); if (n >= 0) batch(*p, n); } sym_assert(joined(), "a worker outlives its pool"); sym_cover("joined"); }
ENTRY(c27_shutdown) { life(2, sym_choice("batch", 2) - 1); }
ENTRY(c27_tasks) { life(2, sym_choice("tasks", 4)); }
ENTRY(c27_tasks5) { life(2, 5); }
ENTRY(c27_race) { life(2, 1); }
ENTRY(c27_three) { life(3, sym_choice("tasks", 2)); }
ENTRY(c27_three3) { life(3, 3); }
ENTRY(c27_four) { life(4, -1); }
ENTRY(c27_four2) { life(4, 2); }
ENTRY(c27_spurious) { sym_spurious_budget = 2; life(2, sym_choice("tasks", 2)); }
struct Plain { int id; Plain() : id(-1) {} Plain(int i) : id(i) {} void DoTask() { runs[id]++; } };
typedef k52::parallel::thread::ThreadWorkerPoolTemplated<Plain> Pool;
static void single(int n) {
  sym_hw_concurrency = 1;
  { Pool p(1); std::queue<Plain> q; for (int i = 0; i < n; i++) q.push(Plain(i)); p.DoTasks(q); }
  for (int i = 0; i < 3; i++) sym_assert(runs[i] == (i < n), "a task is not executed exactly once"); sym_assert(joined(), "a worker outlives its pool"); sym_cover("joined");
}
ENTRY(c27_single) { single(sym_choice("tasks", 3)); }
ENTRY(c27_single3) { sym_spurious_budget = 1; single(3); }
ENTRY(c27_invalid) { int n = sym_int("workers", INT_MIN, 0); sym_assert(THROWS(Pool p(n)), "a pool without workers is created"); sym_cover("refused"); }
static bool failing(IWorkerPool& p, int n, const int* bad) {
  std::vector<Task> t; std::vector<const ITask*> q; for (int i = 0; i < n; i++) { runs[i] = 0; t.push_back(Task(i, 7, bad[i])); } for (int i = 0; i < n; i++) q.push_back(&t[i]);
  bool thrown = false; try { p.DoTasks(q); } catch (...) { thrown = true; }
  return thrown;
}
static void one() {
  IWorkerPool::shared_ptr p = threads(2); int bad[1] = {1 + sym_choice("throws", 2)};
  sym_assert(failing(*p, 1, bad), "the failure of a task is not reported"); sym_assert(runs[0] == 1, "a task is not executed exactly once"); sym_cover(bad[0] == 1 ? "exception" : "other value");
  batch(*p, 1);
}
ENTRY(c27_throwing) { one(); sym_assert(joined(), "a worker outlives its pool"); }
ENTRY(c27_throwing_race) { IWorkerPool::shared_ptr p = threads(2); int bad[1] = {1}; sym_assert(failing(*p, 1, bad), "the failure of a task is not reported"); sym_cover("exception"); sym_done(); }
static void some(int n) {
  { IWorkerPool::shared_ptr p = threads(2); int bad[3]; bool any = false; for (int i = 0; i < n; i++) { bad[i] = sym_choice("throws", 2); any |= bad[i] != 0; }
    sym_assert(failing(*p, n, bad) == any, any ? "the failure of a task is not reported" : "a good batch fails"); for (int i = 0; i < n; i++) sym_assert(runs[i] == 1, "a task is not executed exactly once"); sym_cover(any ? "exception" : "none"); }
  sym_assert(joined(), "a worker outlives its pool");
}
ENTRY(c27_throwing2) { some(2); }
ENTRY(c27_throwing3) { some(3); }
ENTRY(c27_sequential) {
  IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool); int bad[3]; bool any = false; for (int i = 0; i < 3; i++) { bad[i] = sym_choice("throws", 3); any |= bad[i] != 0; }
  sym_assert(failing(*p, 3, bad) == any, any ? "the failure of a task is not reported" : "a good batch fails"); sym_cover(any ? "exception" : "none"); batch(*p, 2);
}
