// Harness interface: symbolic under the executor, replaying a trace when compiled natively.
#pragma once
#ifdef SYM_NATIVE
struct SymReg { SymReg(const char *n, void (*f)()); };
#define HARNESS(name) extern "C" void name(); static SymReg reg_##name(#name, name); extern "C" void name()
#else
#define HARNESS(name) extern "C" void name()
#endif
extern "C" {
int sym_int(const char *name, int lo, int hi);
int sym_pick(const char *name, int lo, int hi);   // forks on every value
int sym_conc(int v);                              // forks on the feasible values of v
unsigned long sym_ulong(const char *name);
bool sym_bool(const char *name);
double sym_double(const char *name);
int sym_param(const char *name, int dflt);
void sym_assume(bool c);
void sym_check(bool c, const char *id);
void sym_reach(const char *id);
void sym_observe(const char *name, long v);
void sym_stop();
void sym_abort_ok(bool c, const char *id);        // from here an abort/throw is allowed iff c
void sym_abort_default();
bool sym_is_native();
void sym_region(void *p, int elemsize, int count, int zero, int fp, const char *name);
unsigned long sym_uf(const char *name, int n, const long *args);
double sym_ufd(const char *name, int n, const long *args);
long sym_dbits(double d);
double sym_modpart(double d);
double sym_phasepart(double d);
bool sym_deq(double a, double b);
bool sym_lt(double a, double b);
bool sym_modzero(int s, int m);                   // s is a multiple of m
double sym_draw_cmpval(int i);                    // what uniform draw i was compared with
int sym_draw_count();
int sym_draw_kind(int i);  // 0 irn, 1 urn, 2 raw
int sym_draw_cmp(int i);
double sym_draw_urn(int i);
int sym_draw_int(int i);
void sym_draw_clear();
long sym_size(void *p);
}
#ifdef SYM_NATIVE
#include <random>
void sym_rng_force(std::mt19937 &eng);            // make the engine produce the trace's draws
void sym_rng_force_raw(std::mt19937 &eng, const unsigned *raws, int n);
double sym_grp_real(unsigned id);                 // numeric stand-in of an opaque real
extern int sym_seed;
#include <functional>
// probability that the update is accepted, found by bisecting the deciding draw; run(force) executes it once
double native_acceptance(std::mt19937 &eng, const std::function<bool()> &run);
#define NATIVE_ONLY(x) x
#else
#define NATIVE_ONLY(x)
#endif
