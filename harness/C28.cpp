/*CHECK
{"sources": ["src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/worker_statistics.cpp", "parallel/thread"], "sanitize": "thread",
 "bounds": "0 (unknown), 1, 2, 3 and 8 reported hardware threads; every pool type, also values outside the enumeration; one schedule of the workers unless C26/C27 cover them; built without MPI",
 "assumptions": ["Boost.Thread is replaced by shadow/boost/thread.hpp"],
 "entries": [
  {"name": "c28_best", "opts": "overflow", "covers": ["sequential", "threads"], "bounds": "0, 1, 2, 3 or 8 hardware threads"},
  {"name": "c28_works", "opts": "overflow,race", "covers": ["sequential"], "bounds": "0 or 1 hardware threads, a batch of 2 tasks"},
  {"name": "c28_works2", "opts": "overflow,race", "covers": ["threads"], "bounds": "2 hardware threads, a batch of 1 task, every schedule"},
  {"name": "c28_available", "opts": "overflow", "covers": ["created", "refused"], "bounds": "every pool type, 0, 1 or 2 hardware threads, twice"},
  {"name": "c28_unknown", "opts": "overflow", "covers": ["refused"], "bounds": "every other value of the type"},
  {"name": "c28_few", "opts": "overflow,race", "covers": ["refused"], "bounds": "0 or 1 hardware threads"}
 ]}
*/
#include "pool_util.h"
#include <typeinfo>
#include <parallel/sequential_worker_pool.h>
static bool isThreads(IWorkerPool& p) { return typeid(p) == typeid(k52::parallel::thread::ThreadWorkerPool); }
static int hw(int k) { static const int v[] = {0, 1, 2, 3, 8}; return sym_hw_concurrency = v[k]; }
ENTRY(c28_best) {
  int n = hw(sym_choice("hardware threads", 5)); IWorkerPool::shared_ptr p;
  sym_assert(!THROWS(p = WorkerPoolFactory::CreateBestWorkerPool()), "no pool for this number of hardware threads"); sym_assert(p && p->IsValid(), "the best pool is not usable");
  if (n >= 2) { sym_assert(isThreads(*p), "several hardware threads stay unused"); sym_cover("threads"); } else sym_cover("sequential");
  sym_done();
}
ENTRY(c28_works) { hw(sym_choice("hardware threads", 2)); IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateBestWorkerPool(); batch(*p, 2); sym_cover("sequential"); }
ENTRY(c28_works2) { hw(2); IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateBestWorkerPool(); batch(*p, 1); sym_cover("threads"); sym_done(); }
ENTRY(c28_available) {
  hw(sym_choice("hardware threads", 3));
  for (int r = 0; r < 2; r++) {
    WorkerPoolFactory::WorkerPoolType t = (WorkerPoolFactory::WorkerPoolType)sym_choice("type", 3); bool can = WorkerPoolFactory::CanCreateWorkerPool(t); IWorkerPool::shared_ptr p; bool t2 = THROWS(p = WorkerPoolFactory::CreateWorkerPool(t));
    sym_assert(can == !t2, can ? "a pool type reported available cannot be created" : "a pool type reported unavailable is created"); sym_assert(t2 || p, "no pool is created"); sym_cover(t2 ? "refused" : "created");
    if (t == WorkerPoolFactory::kSequentialWorkerPool) sym_assert(can && !isThreads(*p) && p->IsValid(), "no sequential pool"); 
    if (t == WorkerPoolFactory::kThreadWorkerPool) sym_assert(can && isThreads(*p) && p->IsValid() == (sym_hw_concurrency >= 2), "the thread pool's own validity is wrong");
    if (p && sym_choice("stop", 2)) sym_done();
    if (p && isThreads(*p)) sym_done();
  }
}
ENTRY(c28_unknown) { int v = sym_int("type", INT_MIN, INT_MAX); sym_assume(v < 0 || v > 2); WorkerPoolFactory::WorkerPoolType t; __builtin_memcpy(&t, &v, sizeof t); sym_assert(!WorkerPoolFactory::CanCreateWorkerPool(t), "an unknown pool type is reported available"); sym_assert(THROWS(WorkerPoolFactory::CreateWorkerPool(t)), "an unknown pool type is created"); sym_cover("refused"); }
ENTRY(c28_few) { hw(sym_choice("hardware threads", 2)); IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); sym_assert(!p->IsValid(), "a pool of one worker claims to be useful"); std::vector<const ITask*> q; sym_assert(THROWS(p->DoTasks(q)), "a pool without helpers accepts a batch"); sym_cover("refused"); }
