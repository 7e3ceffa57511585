// The environment, compiled both for the engine and for native replay.
#include <cstdlib>
#include <ctime>
#include "sym.h"
extern "C" { int (*sym_rand_hook)() = 0; unsigned sym_hw_concurrency = 2; }
extern "C" int rand() throw() { return sym_rand_hook ? sym_rand_hook() : sym_int("rand", 0, RAND_MAX); }
extern "C" time_t time(time_t* t) throw() { if (t) *t = 1; return 1; }
