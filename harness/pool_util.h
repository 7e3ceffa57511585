// Tasks that record how often they ran, and a batch of them with free inputs.
#pragma once
#include "util.h"
#include "sym.h"
#include <k52/parallel/worker_pool_factory.h>
#include <parallel/thread/thread_worker_pool.h>
extern "C" { extern unsigned sym_hw_concurrency; extern int sym_spurious_budget; }
using namespace k52::parallel;
static int runs[1024]; static int live;
struct Result : public ITaskResult { int id, v; Result(int id, int v) : id(id), v(v) {} };
struct Task : public ITask {
  int id, in, bad; Task(int id, int in, int bad = 0) : id(id), in(in), bad(bad) {}
  virtual Result* Perform() const { runs[id]++; if (bad == 1) throw std::runtime_error("task"); if (bad == 2) throw 5; return new Result(id, in ^ 21); }
};
static void batch(IWorkerPool& p, int n) {
  std::vector<Task> t; std::vector<const ITask*> q; for (int i = 0; i < n; i++) { runs[i] = 0; t.push_back(Task(i, sym_int("input", INT_MIN, INT_MAX))); } for (int i = 0; i < n; i++) q.push_back(&t[i]);
  std::vector<ITaskResult::shared_ptr> r = p.DoTasks(q);
  sym_assert((int)r.size() == n, "not as many results as tasks");
  for (int i = 0; i < n; i++) { sym_assert(runs[i] == 1, "a task is not executed exactly once"); const Result* x = dynamic_cast<const Result*>(r[i].get()); sym_assert(x != 0, "a task's result is missing"); sym_assert(x->id == i && x->v == (t[i].in ^ 21), "a result is not the one of its task"); }
}
static IWorkerPool::shared_ptr threads(int workers) { sym_hw_concurrency = workers; return WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); }
