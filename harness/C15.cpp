/*CHECK
{"sources": ["common"], "ubsan": true,
 "bounds": "sequences of 4 (thorough 5) operations (store, store two, fetch, look up, clear) over 3 keys with every stored double; limits: unbounded, room for two records, room for none; chromosome keys of up to 3 bits",
 "entries": [
  {"name": "c15_map", "opts": "overflow", "covers": ["hit", "miss", "stored two"], "bounds": "4 operations, no limit reached"},
  {"name": "c15_limit", "opts": "overflow", "covers": ["hit", "forgotten", "kept"], "bounds": "4 operations, room for two records"},
  {"name": "c15_tiny", "opts": "overflow", "covers": ["hit", "forgotten"], "bounds": "4 operations, room for none"},
  {"name": "c15_map5", "opts": "overflow", "tier": "thorough", "covers": ["hit"], "bounds": "5 operations, no limit reached"},
  {"name": "c15_limit5", "opts": "overflow", "tier": "thorough", "covers": ["hit"], "bounds": "5 operations, room for two records"},
  {"name": "c15_chromosomes", "opts": "overflow", "covers": ["equal", "different"], "bounds": "two chromosomes of up to 3 bits, contents and lengths free"},
  {"name": "c15_create", "opts": "overflow", "covers": ["none", "some"], "bounds": "every double as limit"},
  {"name": "c15_many", "opts": "overflow", "covers": ["in", "over"], "bounds": "10, 33, 100, 300 keys, limits above and below that; one value symbolic"},
  {"name": "c15_chromosomes_long", "opts": "overflow", "covers": ["done"], "bounds": "chromosomes of 8, 31, 32, 33, 63, 64, 65, 100 bits that differ in one bit, any"}
 ]}
*/
#include "util.h"
#include "sym.h"
#include <k52/common/cache.h>
using namespace k52::common;
typedef Cache<int, double> IC;
static const int KEYS = 3;
// ghost: what an ideal map would hold; used: fetched since stored
struct Ghost { bool has[KEYS]; double v[KEYS]; bool used[KEYS]; bool touched[KEYS]; Ghost() { for (int i = 0; i < KEYS; i++) has[i] = used[i] = touched[i] = false; } int records() { int n = 0; for (int i = 0; i < KEYS; i++) n += touched[i]; return n; } };
static void store(Ghost& g, int k, double v) { g.has[k] = g.touched[k] = true; g.v[k] = v; g.used[k] = false; }
static void run(double megabytes, int room, int ops) {
  IC::shared_ptr c = IC::Create(megabytes); Ghost g; static const int key[KEYS] = {7, -3, 7 + (1 << 20)};
  for (int o = 0; o < ops; o++) {
    int op = sym_choice("op", 5);
    if (op == 0 || op == 3) {
      int k = sym_choice("key", KEYS), k2 = -1; double v = sym_double_any("value"), v2 = 0;
      int over = g.records() > room; Ghost before = g;
      if (op == 0) sym_assert(!THROWS(c->AddValue(key[k], v)), "storing a value fails");
      else { k2 = (k + 1) % KEYS; v2 = sym_double_any("value"); std::vector<IC::CacheRecord> r; r.push_back(IC::CacheRecord(key[k], v)); r.push_back(IC::CacheRecord(key[k2], v2)); sym_assert(!THROWS(c->AddValues(r)), "storing several values fails"); sym_cover("stored two"); }
      store(g, k, v); if (k2 >= 0) store(g, k2, v2);
      sym_assert(c->IsCached(key[k]), "a value just stored is missing"); if (k2 >= 0) sym_assert(c->IsCached(key[k2]), "a value just stored is missing");
      // what went: only when the limit was exceeded, and values never fetched first
      bool lostUsed = false, keptUnused = false;
      for (int i = 0; i < KEYS; i++) if (i != k && i != k2 && before.has[i]) {
        bool in = c->IsCached(key[i]);
        if (!in) { sym_assert(over, "a value is forgotten although the limit is not exceeded"); if (before.used[i]) lostUsed = true; g.has[i] = false; sym_cover("forgotten"); }
        else { if (!before.used[i]) keptUnused = true; if (over) sym_cover("kept"); }
      }
      sym_assert(!(lostUsed && keptUnused), "a fetched value is forgotten before one never fetched");
      for (int i = 0; i < KEYS; i++) g.touched[i] = g.has[i];
      for (int i = 0; i < KEYS; i++) if (before.has[i] || i == k || i == k2) g.touched[i] = true; // IsCached above leaves an empty record
      if (!over) for (int i = 0; i < KEYS; i++) if (before.touched[i]) g.touched[i] = true;
    } else if (op == 4) { c->Clear(); g = Ghost(); for (int i = 0; i < KEYS; i++) { sym_assert(!c->IsCached(key[i]), "a value survives clearing"); g.touched[i] = true; } }
    else {
      int k = sym_choice("key", KEYS); bool has = c->IsCached(key[k]); sym_assert(has == g.has[k], g.has[k] ? "a stored value is missing" : "a value nobody stored is found"); g.touched[k] = true;
      if (op == 1) {
        double v = 0; bool t = THROWS(v = c->GetCachedValue(key[k])); sym_assert(t == !g.has[k], "fetching fails exactly for missing values");
        if (!t) { sym_assert(sym_or(v == g.v[k], sym_and(v != v, g.v[k] != g.v[k])), "another value than the one last stored"); g.used[k] = true; sym_cover("hit"); } else sym_cover("miss");
      }
    }
  }
}
static double room(int n) { return (n + 0.5) * (sizeof(IC::cache_map_type::key_type) + sizeof(IC::cache_map_type::value_type)) / 1048576; }
ENTRY(c15_map) { run(1000, 1000, 4); }
ENTRY(c15_limit) { run(room(2), 2, 4); }
ENTRY(c15_tiny) { run(1e-12, 0, 4); }
ENTRY(c15_map5) { run(1000, 1000, 5); }
ENTRY(c15_limit5) { run(room(2), 2, 5); }
ENTRY(c15_chromosomes) {
  typedef Cache<std::vector<bool>, double> C; C::shared_ptr c = C::Create(1);
  std::vector<bool> a(sym_choice("length", 4)), b(sym_choice("length", 4)); for (size_t i = 0; i < a.size(); i++) a[i] = sym_concretize(sym_bool("bit")); for (size_t i = 0; i < b.size(); i++) b[i] = sym_concretize(sym_bool("bit"));
  double x = sym_double("x", -1, 1), y = sym_double("y", -1, 1); c->AddValue(a, x); bool same = a == b; sym_assert(c->IsCached(b) == same, "equal chromosomes and no others share a value");
  c->AddValue(b, y); sym_assert(c->GetCachedValue(a) == (same ? y : x) && c->GetCachedValue(b) == y, "another value than the one last stored"); if (same) sym_cover("equal"); else sym_cover("different");
}
ENTRY(c15_create) { double m = sym_double_any("megabytes"); IC::shared_ptr c = IC::Create(m); sym_assert(!!c == (m > 0), "a cache is created exactly for a positive limit"); if (!c) sym_cover("none"); else { c->AddValue(1, 2); sym_assert(c->GetCachedValue(1) == 2, "value"); sym_cover("some"); } }
ENTRY(c15_many) {
  static const int N[] = {10, 33, 100, 300}; int n = N[sym_choice("keys", 4)], small = sym_choice("small", 2), k = sym_choice("key", 2) ? n - 2 : n / 2, over = small ? n / 2 + 2 : n + 5; IC::shared_ptr c = IC::Create(room(over)); double v = sym_double("value", -1e9, 1e9); std::vector<bool> used(n), had(n);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < i; j++) if (j + 3 >= i || j == k || j % 16 == 0) had[j] = c->IsCached(j * 31 - 400); c->AddValue(i * 31 - 400, i == k ? v : i * 0.5); sym_assert(c->IsCached(i * 31 - 400), "a value just stored is missing");
    bool lostUsed = false, keptUnused = false; for (int j = 0; j < i; j++) if ((j + 3 >= i || j == k || j % 16 == 0) && had[j]) { bool in = c->IsCached(j * 31 - 400); sym_assert(in || i >= over, "a value is forgotten although the limit is not exceeded"); if (!in && used[j]) lostUsed = true; if (in && !used[j]) keptUnused = true; } sym_assert(!(lostUsed && keptUnused), "a fetched value is forgotten before one never fetched");
    if (i % 4 == 0 || i == k) { sym_assert(c->GetCachedValue(i * 31 - 400) == (i == k ? v : i * 0.5), "another value than the one last stored"); used[i] = true; }
  }
  for (int i = 0; i < n; i++) if (c->IsCached(i * 31 - 400)) sym_assert(c->GetCachedValue(i * 31 - 400) == (i == k ? v : i * 0.5), "another value than the one last stored"); sym_assert(!c->IsCached(-401), "a value nobody stored is found"); sym_cover(small ? "over" : "in");
}
ENTRY(c15_chromosomes_long) {
  static const int N[] = {8, 31, 32, 33, 63, 64, 65, 100}; int n = N[sym_choice("length", 8)], at = sym_choice("bit", n); typedef Cache<std::vector<bool>, double> C; C::shared_ptr c = C::Create(1); std::vector<bool> a(n), b; for (int i = 0; i < n; i++) a[i] = i % 3 == 1; b = a; b[at] = !b[at];
  double x = sym_double("x", -1, 1), y = sym_double("y", -1, 1); c->AddValue(a, x); sym_assert(!c->IsCached(b), "equal chromosomes and no others share a value"); c->AddValue(b, y); sym_assert(sym_and(c->GetCachedValue(a) == x, c->GetCachedValue(b) == y), "another value than the one last stored"); sym_cover("done");
}
