/*CHECK
{"sources": ["common"], "ubsan": true,
 "bounds": "up to 2 command-line arguments with keys and values of up to 2 free bytes, dotted keys of two parts; merging of trees with up to 3 nodes each and free one-byte values",
 "assumptions": ["values are read as strings: conversions to numbers are iostream code outside the library"],
 "entries": [
  {"name": "c16_single", "opts": "overflow", "covers": ["read", "missing"], "bounds": "one argument, key of 1..2 and value of 0..2 free bytes"},
  {"name": "c16_two", "opts": "overflow", "covers": ["same key", "different keys"], "bounds": "two arguments, one-byte keys and values"},
  {"name": "c16_prefix", "opts": "overflow", "covers": ["ignored", "taken"], "bounds": "an argument of 4 free bytes"},
  {"name": "c16_dotted", "opts": "overflow", "covers": ["read"], "bounds": "a.b and a given in either order"},
  {"name": "c16_flag", "opts": "overflow", "covers": ["set"], "bounds": "a bare flag of 1..2 free bytes next to a setting"},
  {"name": "c16_put", "opts": "overflow", "covers": ["put"], "bounds": "put after parsing"},
  {"name": "c16_merge", "opts": "overflow", "covers": ["merged"], "bounds": "every subset of x, y, x.z on each side"},
  {"name": "c16_merge_names", "opts": "overflow", "covers": ["merged"], "bounds": "nodes named by one to three free bytes, dots included"},
  {"name": "c16_many", "opts": "overflow", "covers": ["read"], "bounds": "4, 9, 17, 40 settings with one-byte free values at three of them, keys and values of up to 70 characters"}
 ]}
*/
#include "util.h"
#include "sym.h"
#include <k52/common/settings_manager.h>
using k52::SettingsManager; using std::string; typedef boost::property_tree::ptree T;
struct S : public SettingsManager { S(int n, const char** a) : SettingsManager(n, a) {} static T merge(const T& a, const T& b) { return SettingsManager::Merge(a, b); } };
static string bytes(const char* name, int n, bool key) {
  string s; for (int i = 0; i < n; i++) { int c = sym_int(name, 1, 255); if (key) { sym_assume(c != '.'); sym_assume(c != '='); } s += (char)c; } return s;
}
static int same(const string& a, const string& b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym_and(ok, a[i] == b[i]); return ok; }
static string read(const S& s, const string& k, const char* msg) { string v; bool t = THROWS(v = s.get<string>(k)); sym_assert(!t, msg); return v; }
ENTRY(c16_single) {
  string k = bytes("key", 1 + sym_choice("key length", 2), true), v = bytes("value", sym_choice("value length", 3), false), a = "--" + k + "=" + v; const char* argv[] = {"prog", a.c_str()};
  S s(2, argv); sym_assert(same(read(s, k, "a setting given is missing"), v), "another value than the one given"); sym_assert(same(s.get<string>(k, string("dflt")), v), "default used although the setting is given"); sym_cover("read");
  string k2 = bytes("other", 1, true); if (k2 != k) { sym_assert(THROWS(s.get<string>(k2)), "a setting nobody gave is found"); sym_assert(s.get<string>(k2, string("dflt")) == "dflt", "default not used for a missing setting"); sym_cover("missing"); }
}
ENTRY(c16_two) {
  string k = bytes("key", 1, true), k2 = bytes("key", 1, true), v = bytes("value", 1, false), v2 = bytes("value", 1, false), a = "--" + k + "=" + v, b = "--" + k2 + "=" + v2; const char* argv[] = {a.c_str(), b.c_str()};
  S s(2, argv); sym_assert(same(read(s, k2, "a setting given is missing"), v2), "the later setting does not win"); string r = read(s, k, "a setting given is missing");
  if (k == k2) { sym_assert(same(r, v2), "the later setting does not win"); sym_cover("same key"); } else { sym_assert(same(r, v), "one setting disturbs another"); sym_cover("different keys"); }
}
ENTRY(c16_prefix) {
  string a = bytes("arg", 4, false); sym_assume(a[2] != '.'); sym_assume(a[2] != '='); sym_assume(a[3] == '='); const char* argv[] = {a.c_str(), "--known=1"}; S s(2, argv); string k(1, a[2]);
  sym_assert(read(s, "known", "a setting given is missing") == "1", "value"); bool t = THROWS(s.get<string>(k));
  if (a[0] == '-' && a[1] == '-') { sym_assert(!t, "a setting given is missing"); sym_cover("taken"); } else { sym_assert(t, "an argument without the prefix is taken as a setting"); sym_assert(THROWS(s.get<string>(a.substr(0, 3))) , "an argument without the prefix is taken as a setting"); sym_cover("ignored"); }
}
ENTRY(c16_dotted) {
  string k = bytes("key", 1, true), k2 = bytes("key", 1, true), v = bytes("value", 1, false), w = bytes("value", 1, false), a = "--" + k + "." + k2 + "=" + v, b = "--" + k + "=" + w; int o = sym_choice("order", 2); const char* argv[] = {o ? a.c_str() : b.c_str(), o ? b.c_str() : a.c_str()};
  S s(2, argv); sym_assert(same(read(s, k + "." + k2, "a setting given is missing"), v), "dotted setting has another value"); sym_assert(same(read(s, k, "a setting given is missing"), w), "dotted setting disturbs its parent"); sym_cover("read");
}
ENTRY(c16_flag) {
  string k = bytes("key", 1 + sym_choice("length", 2), true), v = bytes("value", 1, false), a = "--" + k, b = "--other.one=" + v; const char* argv[] = {a.c_str(), b.c_str()}; S s(2, argv);
  sym_assert(!THROWS(s.get<string>(k)), "a flag given is missing"); sym_assert(same(read(s, "other.one", "a setting given is missing"), v), "a flag disturbs a setting"); sym_cover("set");
}
ENTRY(c16_put) {
  string k = bytes("key", 1, true), v = bytes("value", 1, false), w = bytes("value", 2, false), a = "--" + k + "=" + v; const char* argv[] = {a.c_str()}; S s(1, argv);
  sym_assert(s.put(k, w), "put reports failure"); sym_assert(same(read(s, k, "put removes a setting"), w), "put does not replace the value"); sym_assert(s.put(string("sub.new"), v), "put reports failure"); sym_assert(same(read(s, "sub.new", "put does not add a setting"), v), "put stores another value"); sym_assert(same(read(s, k, "put removes a setting"), w), "put disturbs another setting"); sym_cover("put");
}
ENTRY(c16_merge) {
  static const char* P[] = {"x", "y", "x.z"}; T t[2]; bool has[2][3]; string v[2][3];
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { has[i][j] = sym_choice("present", 2); if (has[i][j]) { v[i][j] = bytes("value", 1, false); t[i].put(P[j], v[i][j]); } }
  T m = S::merge(t[0], t[1]);
  for (int j = 0; j < 3; j++) {
    boost::optional<string> r = m.get_optional<string>(P[j]);
    if (has[0][j] || has[1][j]) { sym_assert(!!r, "merging loses a key"); if (r) { if (has[0][j]) sym_assert(same(*r, v[0][j]), "the left value does not win"); else if (has[1][j] && !(j == 0 && has[0][2])) sym_assert(same(*r, v[1][j]), "merging changes a value"); } }
    else if (!(j == 0 && (has[0][2] || has[1][2]))) sym_assert(!r, "merging invents a key");
  }
  sym_cover("merged");
}
ENTRY(c16_merge_names) { // keys as an XML file may contain them
  string a = bytes("left", 1 + 2 * sym_choice("length", 2), false), b = bytes("right", 1 + 2 * sym_choice("length", 2), false), v = bytes("value", 1, false), w = bytes("value", 1, false);
  T l, r; l.push_back(T::value_type(a, T(v))); r.push_back(T::value_type(b, T(w))); T m = S::merge(l, r); sym_assert(m.count(a) == 1 && m.count(b) == 1, "merging loses or repeats a key");
  if (a == b) sym_assert(m.size() == 1 && same(m.find(a)->second.data(), v), "the left value does not win"); else sym_assert(m.size() == 2 && same(m.find(a)->second.data(), v) && same(m.find(b)->second.data(), w), "merging changes a value"); sym_cover("merged");
}
ENTRY(c16_many) {
  static const int N[] = {4, 9, 17, 40}; int n = N[sym_choice("settings", 4)], len = sym_choice("long", 2) ? 70 : 0, at = sym_choice("at", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; std::vector<string> a, k, v; for (int i = 0; i < n; i++) { k.push_back((i % 5 == 4 ? "grp.k" : "k") + std::to_string(i) + string(len, 'x')); v.push_back(i == at ? string(len, '=') + bytes("value", 1, false) : "v" + std::to_string(i * 3)); a.push_back("--" + k[i] + "=" + v[i]); }
  std::vector<const char*> argv; argv.push_back("prog"); for (int i = 0; i < n; i++) argv.push_back(a[i].c_str()); S s(n + 1, &argv[0]); for (int i = 0; i < n; i++) sym_assert(same(read(s, k[i], "a setting given is missing"), v[i]), "another value than the one given"); sym_assert(THROWS(s.get<string>("k" + std::to_string(n))), "a setting nobody gave is found"); sym_cover("read");
}
