// Harness API. The same harness source is compiled (a) instrumented, where inputs are symbolic, and (b) natively, where
// inputs come from a replay file.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <functional>
namespace sv {
enum Kind { FIN = 1, NAN_ = 2, PINF = 4, NINF = 8, ANY = 15, OPT = 3 };
// symbolic finite value in [lo,hi], or one of the other kinds in the mask
float f32(const char* name, double lo = -1000, double hi = 1000, int kinds = FIN);
int integer(const char* name, int lo, int hi);      // every value in [lo,hi] is explored
bool flag(const char* name);
std::string idx(const char* n, int i); std::string idx(const char* n, int i, int j); std::string idx(const char* n, int i, int j, int k);

// deferred boolean: a term in the symbolic build, a bool in the native one
struct B { int id; };
B mk(bool b);
B le(double a, double b); B lt(double a, double b); B eq(double a, double b);
B close(double a, double b, double tol);              // |a-b| <= tol, or both not finite and of the same kind
B same(double a, double b);                           // equal, or both NaN
B land(B a, B b); B lor(B a, B b); B lnot(B a);
inline B ge(double a, double b) { return le(b, a); } inline B gt(double a, double b) { return lt(b, a); }
inline B imp(B a, B b) { return lor(lnot(a), b); }
// is the value concretely NaN/Inf (decided per path)
bool isnum(double a);
double ite(B c, double a, double b);                  // term-level selection, no forking
double dmin(double a, double b); double dmax(double a, double b); double dabs(double a);
void assume(B b);                                     // restricts the claim
void check(B b, const char* label);                   // the property
inline void assume(bool b) { assume(mk(b)); }
inline void check(bool b, const char* label) { check(mk(b), label); }
void require_theory(const char* t);
bool decide(B b);                                     // forks when undecided
[[noreturn]] void stop_path();                        // end this path quietly (outside the claim)
bool symbolic();
bool symbolic(double a);                              // the value is a symbolic term
void exact_division(bool on);                         // real theory: keep concrete quotients exact
void exp_pairs(bool on);                              // exp(-x) exp(x) = 1 for the pairs that occur (default off)
void merge(bool on);                                  // merge float selects into terms instead of forking (default on)
void omp(int threads, bool reversed);                     // simulated OpenMP team (default 1 thread, in order)
void omp_log(bool on); std::string omp_conflict(); long omp_regions(); // conflict detection between iterations (needs a SV_MEM build)
void note(const char* fmt, ...);                      // debugging aid (native replay prints it)
struct Reg { Reg(const char* name, void (*f)(), int flags, const char* bounds); };
int tier();                                           // 0 quick, 1 thorough
}
// HARNESS(name, "stated bounds") { body }
#define SV_HARNESS(name, bounds) static void name(); static sv::Reg reg_##name(#name, name, 0, bounds); static void name()
#define SV_HARNESS_T(name, bounds) static void name(); static sv::Reg reg_##name(#name, name, 1, bounds); static void name()   // thorough only
#define SV_HARNESS_FP(name, bounds) static void name(); static sv::Reg reg_##name(#name, name, 2, bounds); static void name()  // IEEE theory
#define SV_HARNESS_FPT(name, bounds) static void name(); static sv::Reg reg_##name(#name, name, 3, bounds); static void name()
