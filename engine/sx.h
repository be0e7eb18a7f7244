// Harness API.  The same harness source is compiled twice: instrumented (linked with libsxrt.so: symbolic
// execution) and natively (linked with replay.cpp: concrete replay of a solver model on the real code).
#pragma once
#include <cstdint>
#include <gmp.h>
extern "C" {
// a symbolic integer in [lo,hi] (machine word)
int64_t sx_int(const char *name, int64_t lo, int64_t hi);
// a symbolic arbitrary precision integer in [lo,hi] (decimal strings); z must be initialised
void sx_mpz(mpz_ptr z, const char *name, const char *lo, const char *hi);
// a solver-enumerated choice in [0,n)
int sx_choice(const char *name, int n);
// restrict the input space (condition over the inputs)
void sx_assume(bool c);
// the property: must hold for every input
void sx_check(bool c, const char *msg);
// the property, for integers: a == b
void sx_check_eqz(mpz_srcptr a, mpz_srcptr b, const char *msg);
// one decision: a == b
bool sx_eqz(mpz_srcptr a, mpz_srcptr b);
// reachability witness: evidence that the interesting region is entered
void sx_reach(const char *what);
// enumerate every feasible value of v
int64_t sx_value(int64_t v);
// symbolic execution active? (false in native replay)
int sx_symbolic(void);
// path-solver knobs: maximum number of values enumerated at one concretisation point
void sx_opt(const char *name, int64_t v);
// observation compared between the symbolic and the native run of the same model
void sx_obs(int64_t v);
void sx_register(const char *name, void (*fn)(void));
}
struct SxReg { SxReg(const char *n, void (*f)(void)) { sx_register(n, f); } };
#define SX_HARNESS(name) static void name(); static SxReg sx_reg_##name(#name, name); static void name()
