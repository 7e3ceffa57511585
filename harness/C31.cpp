/*CHECK
{"sources": ["src/parallel/mpi/delay_supplier.cpp"], "ubsan": true,
 "bounds": "every sequence of up to 8 operations (sleep, back off, reset); the delay is what usleep is asked for",
 "assumptions": ["usleep is replaced by a stand-in that records the requested delay"],
 "entries": [
  {"name": "c31_history", "opts": "overflow", "covers": ["grows", "cap", "reset"], "bounds": "8 operations"},
  {"name": "c31_many", "opts": "overflow", "covers": ["capped"], "bounds": "up to 40 back-offs without a reset"},
  {"name": "c31_static", "opts": "overflow", "covers": ["slept"], "bounds": "every delay of up to 2000 ms"}
 ]}
*/
#include "util.h"
#include "sym.h"
#include <parallel/mpi/delay_supplier.h>
using k52::parallel::mpi::DelaySupplier;
static unsigned slept; static int calls;
extern "C" int usleep(unsigned us) { slept = us; calls++; return 0; }
static unsigned now(DelaySupplier& d) { int c = calls; d.SleepWithCurrentDelay(); sym_assert(calls == c + 1, "no single sleep"); return slept; }
static const unsigned CAP = 1000000; // one second
ENTRY(c31_history) {
  DelaySupplier d; unsigned first = now(d), last = first; sym_assert(first > 0 && first <= CAP, "the first delay is no short positive one");
  for (int i = 0; i < 8; i++) {
    int op = sym_choice("op", 2);
    if (op == 0) { d.IncreaseDelay(); unsigned c = now(d); sym_assert(c >= last, "the delay shrinks without a reset"); sym_assert(c <= CAP, "the delay exceeds its cap"); sym_assert(c > last || last == CAP, "the delay stops growing below its cap"); if (c > last) sym_cover("grows"); else sym_cover("cap"); last = c; }
    else { d.ResetDelay(); last = now(d); sym_assert(last == first, "a reset does not restore the smallest delay"); sym_cover("reset"); }
    sym_assert(now(d) == last, "the delay changes by sleeping");
  }
}
ENTRY(c31_many) { DelaySupplier d; int n = sym_choice("back-offs", 41); unsigned last = now(d); for (int i = 0; i < n; i++) { d.IncreaseDelay(); unsigned c = now(d); sym_assert(c >= last && c <= CAP, "the delay leaves its range"); last = c; } if (n >= 10) { sym_assert(last == CAP, "the cap is never reached"); sym_cover("capped"); } d.ResetDelay(); DelaySupplier e; sym_assert(now(d) == now(e), "a reset does not restore the smallest delay"); }
ENTRY(c31_static) { int ms = sym_int("ms", 0, 2000); DelaySupplier::SleepMillisec(ms); sym_assert(slept == (unsigned)ms * 1000, "another delay than requested"); sym_cover("slept"); }
