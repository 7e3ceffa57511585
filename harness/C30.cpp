/*CHECK
{"sources": ["src/parallel/mpi/identifyable_objects_manager.cpp"], "ubsan": true,
 "bounds": "sequences of 4 (thorough 5) operations (register, look up) over three kinds of objects with free contents",
 "entries": [
  {"name": "c30_registry", "opts": "overflow", "covers": ["found", "rejected", "registered again"], "bounds": "4 operations"},
  {"name": "c30_registry5", "opts": "overflow", "tier": "thorough", "replaces": "c30_registry", "covers": ["found", "rejected", "registered again"], "bounds": "5 operations"},
  {"name": "c30_ids", "opts": "overflow", "covers": ["ids"], "bounds": "every pair of kinds"},
  {"name": "c30_unknown", "opts": "overflow", "covers": ["rejected"], "bounds": "identifiers of 0..3 free bytes"}
 ]}
*/
#include "util.h"
#include "sym.h"
#include <k52/parallel/mpi/identifyable_objects_manager.h>
using k52::parallel::mpi::IdentifyableObjectsManager; using k52::common::ICloneable;
struct Base : public ICloneable { int v; Base(int v) : v(v) {} };
struct A : public Base { A(int v) : Base(v) {} virtual A* Clone() const { return new A(v); } };
struct B : public Base { B(int v) : Base(v) {} virtual B* Clone() const { return new B(v); } };
struct A2 : public A { A2(int v) : A(v) {} virtual A2* Clone() const { return new A2(v); } };
static Base* make(int k, int v) { return k == 0 ? (Base*)new A(v) : k == 1 ? (Base*)new B(v) : (Base*)new A2(v); }
static bool kind(const ICloneable* o, int k) { return k == 0 ? typeid(*o) == typeid(A) : k == 1 ? typeid(*o) == typeid(B) : typeid(*o) == typeid(A2); }
static void run(int ops) {
  IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance(); std::string id[3]; for (int k = 0; k < 3; k++) { Base* o = make(k, 0); id[k] = IdentifyableObjectsManager::GetId(*o); delete o; }
  bool has[3] = {false, false, false}; int val[3] = {0, 0, 0};
  for (int i = 0; i < ops; i++) {
    int k = sym_choice("kind", 3);
    if (sym_choice("op", 2)) { int v = sym_int("value", INT_MIN, INT_MAX); Base* o = make(k, v); if (has[k]) sym_cover("registered again"); sym_assert(!THROWS(m.RegisterObject(*o)), "registering fails"); o->v = 0; delete o; has[k] = true; val[k] = v; }
    else {
      const ICloneable* o = 0; bool t = THROWS(o = m.GetObject(id[k])); sym_assert(t == !has[k], has[k] ? "a registered kind is rejected" : "a kind never registered is handed out"); if (t) { sym_cover("rejected"); continue; }
      sym_assert(o && kind(o, k), "an object of another kind is handed out"); sym_assert(static_cast<const Base*>(o)->v == val[k], "the object handed out is not like the registered one");
      Base* c = static_cast<Base*>(o->Clone()); c->v = 1; sym_assert(static_cast<const Base*>(m.GetObject(id[k]))->v == val[k], "the registered sample changes with its clones"); delete c; sym_cover("found");
    }
  }
}
ENTRY(c30_registry) { run(4); }
ENTRY(c30_registry5) { run(5); }
ENTRY(c30_ids) { int k = sym_choice("kind", 3), l = sym_choice("kind", 3); Base* a = make(k, sym_int("v", 0, 9)); Base* b = make(l, sym_int("v", 0, 9)); sym_assert((IdentifyableObjectsManager::GetId(*a) == IdentifyableObjectsManager::GetId(*b)) == (k == l), "identifiers do not tell kinds apart"); delete a; delete b; sym_cover("ids"); }
ENTRY(c30_unknown) { IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance(); A a(3); m.RegisterObject(a); std::string s; int n = sym_choice("length", 4); for (int i = 0; i < n; i++) s += (char)sym_int("byte", 0, 255); sym_assume(s != IdentifyableObjectsManager::GetId(a)); sym_assert(THROWS(m.GetObject(s)), "an identifier never registered is accepted"); sym_assert(THROWS(m.GetObject(s)), "an identifier never registered is accepted the second time"); sym_assert(!THROWS(m.GetObject(IdentifyableObjectsManager::GetId(a))), "a rejected lookup disturbs the registry"); sym_cover("rejected"); }
