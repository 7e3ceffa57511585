/*CHECK
{"sources": ["src/parallel/statistics_aggregator.cpp", "src/parallel/worker_statistics.cpp", "src/parallel/sequential_worker_pool.cpp"], "ubsan": true,
 "bounds": "every sequence of up to 5 registrations (counts and errors) with every int as worker id; sequential pool: up to 3 batches of up to 3 tasks, tasks that throw included",
 "entries": [
  {"name": "c29_aggregate", "opts": "overflow", "covers": ["same worker", "two workers", "error"], "bounds": "5 registrations of 3 freely chosen ids"},
  {"name": "c29_ids", "opts": "overflow", "covers": ["separate", "together"], "bounds": "every pair of int ids"},
  {"name": "c29_sequential", "opts": "overflow", "covers": ["batches"], "bounds": "3 batches of 0..3 tasks"},
  {"name": "c29_throwing", "opts": "overflow", "covers": ["failed batch"], "bounds": "batches of 1..3 tasks one of which throws"},
  {"name": "c29_many", "opts": "overflow", "covers": ["done"], "bounds": "5, 9, 17, 40 workers, 1..12 registrations each, ids around a free base"},
  {"name": "c29_long", "opts": "overflow", "covers": ["done"], "bounds": "sequential pool, 2 batches of 8, 17, 40, 300 tasks"}
 ]}
*/
#include "util.h"
#include "sym.h"
#include <parallel/statistics_aggregator.h>
#include <parallel/sequential_worker_pool.h>
using namespace k52::parallel;
ENTRY(c29_aggregate) {
  StatisticsAggregator a; int id[3]; for (int i = 0; i < 3; i++) { id[i] = sym_int("id", INT_MIN, INT_MAX); for (int j = 0; j < i; j++) sym_assume(id[j] < id[i]); }
  int counted[3] = {0, 0, 0}, errors[3] = {0, 0, 0}, seen = 0, n = sym_choice("registrations", 6);
  for (int i = 0; i < n; i++) { int w = sym_choice("worker", 3), e = sym_choice("error", 2); if (e) { a.RegisterError(id[w]); errors[w]++; sym_cover("error"); } else { a.RegisterCount(id[w]); counted[w]++; } }
  std::vector<WorkerStatistics> s = a.GetStatistics(); for (int w = 0; w < 3; w++) seen += counted[w] + errors[w] > 0; sym_assert((int)s.size() == seen, "statistics for another number of workers than registered"); int total = 0;
  for (size_t i = 0; i < s.size(); i++) { total += s[i].get_counted(); bool hit = false; for (int w = 0; w < 3; w++) if (s[i].get_id() == id[w]) { sym_assert(s[i].get_counted() == counted[w] && s[i].get_errors() == errors[w], "statistics of a worker are not what was registered"); hit = true; } sym_assert(hit, "statistics of a worker nobody registered"); }
  sym_assert(total == counted[0] + counted[1] + counted[2], "the counts do not add up to the work done"); if (seen == 1) sym_cover("same worker"); if (seen == 2) sym_cover("two workers");
}
ENTRY(c29_ids) {
  StatisticsAggregator a; int x = sym_int("id", INT_MIN, INT_MAX), y = sym_int("id", INT_MIN, INT_MAX); a.RegisterCount(x); a.RegisterCount(y); a.RegisterError(x); std::vector<WorkerStatistics> s = a.GetStatistics();
  if (x == y) { sym_assert(s.size() == 1 && s[0].get_id() == x && s[0].get_counted() == 2 && s[0].get_errors() == 1, "one worker's statistics"); sym_cover("together"); }
  else { sym_assert(s.size() == 2, "two workers' statistics"); int i = s[0].get_id() == x ? 0 : 1; sym_assert(s[i].get_id() == x && s[1 - i].get_id() == y && s[i].get_counted() == 1 && s[i].get_errors() == 1 && s[1 - i].get_counted() == 1 && s[1 - i].get_errors() == 0, "statistics of a worker are not what was registered"); sym_cover("separate"); }
}
struct R : public ITaskResult { int v; R(int v) : v(v) {} };
struct Tk : public ITask { int v; bool fail; mutable int runs; Tk() : v(0), fail(false), runs(0) {} virtual R* Perform() const { runs++; if (fail) throw std::runtime_error("task"); return new R(v); } };
ENTRY(c29_sequential) {
  SequentialWorkerPool p; int total = 0;
  for (int b = 0; b < 3; b++) { int n = sym_choice("tasks", 4); Tk t[3]; std::vector<const ITask*> ts; for (int i = 0; i < n; i++) ts.push_back(&t[i]); p.DoTasks(ts); for (int i = 0; i < n; i++) { sym_assert(t[i].runs == 1, "a task does not run exactly once"); total += t[i].runs; } std::vector<WorkerStatistics> s = p.GetStatistics(); sym_assert(s.size() == 1, "the sequential pool has one worker"); sym_assert(s[0].get_counted() == total && s[0].get_errors() == 0, "the statistics do not count every task exactly once"); }
  sym_cover("batches");
}
ENTRY(c29_throwing) {
  SequentialWorkerPool p; int n = 1 + sym_choice("tasks", 3), f = sym_choice("failing", n); Tk t[3]; t[f].fail = true; std::vector<const ITask*> ts; for (int i = 0; i < n; i++) ts.push_back(&t[i]); bool th = THROWS(p.DoTasks(ts)); sym_assert(th, "a failing task goes unnoticed"); int done = 0; for (int i = 0; i < n; i++) if (i != f) done += t[i].runs;
  sym_assert(p.GetStatistics()[0].get_counted() == done, "the statistics count work that was not done"); t[f].fail = false; p.DoTasks(ts); sym_assert(p.GetStatistics()[0].get_counted() == done + n, "the statistics do not count every task exactly once"); sym_cover("failed batch");
}
ENTRY(c29_many) {
  static const int N[] = {5, 9, 17, 40}; int n = N[sym_choice("workers", 4)], base = sym_int("base", -1000000, 1000000), total = 0; StatisticsAggregator a; for (int r = 0; r < 12; r++) for (int w = 0; w < n; w++) { int id = base + (w * 7) % n * 3; if (r <= (w * 5) % 12) { a.RegisterCount(id); total++; } else if (w % 3 == 0) a.RegisterError(id); }
  std::vector<WorkerStatistics> s = a.GetStatistics(); sym_assert((int)s.size() == n, "statistics for another number of workers than registered"); int sum = 0; std::vector<bool> seen(n); for (size_t i = 0; i < s.size(); i++) { sum += s[i].get_counted(); for (int w = 0; w < n; w++) if (s[i].get_id() == base + (w * 7) % n * 3) { sym_assert(!seen[w], "a worker is listed twice"); seen[w] = true; int c = (w * 5) % 12 + 1; sym_assert(s[i].get_counted() == c && s[i].get_errors() == (w % 3 == 0 ? 12 - c : 0), "statistics of a worker are not what was registered"); } }
  for (int w = 0; w < n; w++) sym_assert(seen[w], "a worker is missing from the statistics"); sym_assert(sum == total, "the counts do not add up to the work done"); sym_cover("done");
}
ENTRY(c29_long) { static const int N[] = {8, 17, 40, 300}; SequentialWorkerPool p; int n = N[sym_choice("tasks", 4)], done = 0; for (int b = 0; b < 2; b++) { std::vector<Tk> t(n); std::vector<const ITask*> ts; for (int i = 0; i < n; i++) ts.push_back(&t[i]); p.DoTasks(ts); done += n; int sum = 0; std::vector<WorkerStatistics> s = p.GetStatistics(); for (size_t i = 0; i < s.size(); i++) sum += s[i].get_counted(); sym_assert(sum == done, "the statistics do not count every task exactly once"); } sym_cover("done"); }
