/*CHECK
{"sources": ["src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp", "parallel/thread"], "sanitize": "thread",
 "bounds": "sequential pool: batches of 0..4 and 0..2 tasks; thread pool: 2 workers with 0..4 tasks (thorough 6), 3 workers with 0..3 (thorough 5), 4 workers with 2 (thorough 3), two batches of 0..2 tasks, up to 2 spurious wake-ups (thorough 3 workers); every schedule of the workers and the caller at their synchronisation operations, up to exchanging independent steps and up to reaching a state already explored; every choice of the thread a notification wakes; code between two synchronisation operations runs undisturbed, justified by the happens-before race check of every schedule for 2 workers and 1 task (thorough 2)",
 "assumptions": ["Boost.Thread is replaced by shadow/boost/thread.hpp, whose operations follow the documented semantics of mutex, condition variable, interruption and join"],
 "entries": [
  {"name": "c26_sequential", "opts": "overflow", "covers": ["no task", "several tasks"], "bounds": "0..4 tasks, then 0..2"},
  {"name": "c26_pool", "opts": "overflow,cache", "covers": ["0", "1", "2", "3 or more"], "bounds": "2 workers, 0..4 tasks"},
  {"name": "c26_three", "opts": "overflow,cache", "covers": ["0", "1", "2", "3 or more"], "bounds": "3 workers, 0..3 tasks"},
  {"name": "c26_four", "opts": "overflow,cache", "covers": ["2"], "bounds": "4 workers, 2 tasks"},
  {"name": "c26_pool6", "opts": "overflow,cache,paths=100000000", "tier": "thorough", "covers": ["3 or more"], "bounds": "2 workers, 6 tasks"},
  {"name": "c26_three5", "opts": "overflow,cache,paths=100000000", "tier": "thorough", "covers": ["3 or more"], "bounds": "3 workers, 5 tasks"},
  {"name": "c26_four3", "opts": "overflow,cache,paths=100000000", "tier": "thorough", "covers": ["3 or more"], "bounds": "4 workers, 3 tasks"},
  {"name": "c26_batches", "opts": "overflow,cache", "covers": ["both"], "bounds": "2 workers, two batches of 0..2 tasks"},
  {"name": "c26_spurious", "opts": "overflow,cache", "covers": ["2"], "bounds": "2 workers, 2 tasks, two spurious wake-ups"},
  {"name": "c26_spurious3", "opts": "overflow,cache,paths=100000000", "tier": "thorough", "covers": ["3 or more"], "bounds": "3 workers, 3 tasks, two spurious wake-ups"},
  {"name": "c26_race", "opts": "overflow,race", "covers": ["1"], "bounds": "2 workers, 1 task, happens-before races"},
  {"name": "c26_race2", "opts": "overflow,race,paths=100000000", "tier": "thorough", "covers": ["2"], "bounds": "2 workers, 2 tasks, happens-before races"},
  {"name": "c26_order", "opts": "overflow,race", "covers": ["2"], "bounds": "one worker of the pool template, 2 tasks, happens-before races"},
  {"name": "c26_sequential_many", "opts": "overflow", "covers": ["done"], "bounds": "sequential pool, 8, 17, 100, 300 tasks, then 9"},
  {"name": "c26_one_many", "opts": "overflow,cache", "covers": ["done"], "bounds": "one worker of the pool template, 6, 12 or 24 tasks"}
 ]}
*/
#include "pool_util.h"
ENTRY(c26_sequential) {
  IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
  int n = sym_choice("tasks", 5); batch(*p, n); batch(*p, sym_choice("tasks", 3)); if (n == 0) sym_cover("no task"); if (n > 1) sym_cover("several tasks");
}
// stops before the pool is destroyed: shutting down is C27's subject
static void run(int workers, int n) { IWorkerPool::shared_ptr p = threads(workers); batch(*p, n); sym_cover(n == 0 ? "0" : n == 1 ? "1" : n == 2 ? "2" : "3 or more"); sym_done(); }
ENTRY(c26_pool) { run(2, sym_choice("tasks", 5)); }
ENTRY(c26_three) { run(3, sym_choice("tasks", 4)); }
ENTRY(c26_four) { run(4, 2); }
ENTRY(c26_pool6) { run(2, 6); }
ENTRY(c26_three5) { run(3, 5); }
ENTRY(c26_four3) { run(4, 3); }
ENTRY(c26_spurious) { sym_spurious_budget = 2; run(2, 2); }
ENTRY(c26_spurious3) { sym_spurious_budget = 2; run(3, 3); }
ENTRY(c26_race) { run(2, 1); }
ENTRY(c26_race2) { run(2, 2); }
ENTRY(c26_batches) { IWorkerPool::shared_ptr p = threads(2); batch(*p, sym_choice("tasks", 3)); batch(*p, sym_choice("tasks", 3)); sym_cover("both"); sym_done(); }
struct Plain { int id; Plain() : id(-1) {} Plain(int i) : id(i) {} void DoTask() { runs[id]++; } };
ENTRY(c26_order) {
  k52::parallel::thread::ThreadWorkerPoolTemplated<Plain> p(1); sym_assert(p.get_number_of_workers() == 1, "another number of workers than asked for"); std::queue<Plain> q; q.push(Plain(0)); q.push(Plain(1)); p.DoTasks(q); sym_assert(runs[0] == 1 && runs[1] == 1, "a task is not executed exactly once"); sym_cover("2"); sym_done();
}
ENTRY(c26_sequential_many) { static const int N[] = {8, 17, 100, 300}; IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool); batch(*p, N[sym_choice("tasks", 4)]); batch(*p, 9); sym_cover("done"); }
ENTRY(c26_one_many) { int n = sym_choice("tasks", 3); n = 6 << n; k52::parallel::thread::ThreadWorkerPoolTemplated<Plain> p(1); std::queue<Plain> q; for (int i = 0; i < n; i++) q.push(Plain(i)); p.DoTasks(q); for (int i = 0; i < n; i++) sym_assert(runs[i] == 1, "a task is not executed exactly once"); sym_cover("done"); sym_done(); }
