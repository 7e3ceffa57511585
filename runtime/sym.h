// The harness interface. Under the symbolic engine every function is built in;
// natively (runtime/native.cpp) the same functions replay a witness.
#pragma once
extern "C" {
int sym_int(const char* name, int lo, int hi);
long sym_i64(const char* name, long lo, long hi);
int sym_bool(const char* name);
double sym_double(const char* name, double lo, double hi);   // every double in [lo,hi]
double sym_double_any(const char* name);                     // every bit pattern
double sym_uf(const char* name, int n, const double* args, double lo, double hi); // uninterpreted function
int sym_choice(const char* name, int n);                     // one path per value
int sym_concretize(int v);                                   // one path per feasible value
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_assert_close(double a, double b, double tol, const char* msg);
void sym_cover(const char* label);
void sym_observe_int(const char* name, long v);
void sym_observe(const char* name, double v);
void sym_fail(const char* msg);
void sym_cut(const char* why);
void sym_done();
int sym_and(int a, int b);
int sym_or(int a, int b);
double sym_select(int c, double a, double b);
int sym_is_symbolic();
unsigned long sym_mem_size(const void* p);
int sym_thread_create(void (*f)(void*), void* arg);
int sym_thread_self();
void sym_sched_wait(int* flag);
int sym_thread_done(int id);
}
#define ENTRY(n) extern "C" void n()
