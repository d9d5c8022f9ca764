// Contract primitives used by the units. The same text is compiled twice: to LLVM IR for the
// verifier (VF_SYMBOLIC), where inputs are arbitrary mathematical values, and natively for replay.
#pragma once
extern "C" {
double vf_real(const char* name, double lo, double hi);   // lo, hi: only hints for native sampling
int vf_int(const char* name, int lo, int hi);             // hints as well
int vf_size(const char* name, int lo, int hi);            // lo is a precondition, hi a hint
bool vf_bool(const char* name);
int vf_choose(const char* name, int n);                   // complete case split over 0..n-1
double* vf_real_array(const char* name, int n, double lo, double hi);
int* vf_int_array(const char* name, int n, int lo, int hi);
int* vf_index_array(const char* name, int n, int lo, int hi); // every entry is in [lo, hi): a precondition
int* vf_injection(const char* name, int n, int lo, int hi);   // idem, and no two entries are equal
void vf_requires(bool c);
void vf_ensures(bool c, const char* label);
void vf_ensures_eq(double a, double b, const char* label);             // equal as real numbers
void vf_ensures_near(double a, double b, double tol, const char* label); // idem; tol is for native replay
void vf_cover(const char* label);                         // must be reachable
double vf_ufn1(const char* f, double);                    // arbitrary functions
double vf_ufn2(const char* f, double, double);
double vf_ufn3(const char* f, double, double, double);
double vf_ufn4(const char* f, double, double, double, double);
double vf_ufi1(const char* f, int);
double vf_ufi2(const char* f, int, int);
double vf_ufi3(const char* f, int, int, int);
int vf_ufii1(const char* f, int);
int vf_ufii2(const char* f, int, int);
double vf_diff(double value, double var);
void* vf_unbounded(int elem);
void vf_assume(bool c, const char* label);
// invariant for the loops without a closed form that are met from here on
void vf_invariant(bool (*inv)(void*), void* ctx, const char* label);
}

#ifdef VF_SYMBOLIC
#include "containers.h"
#define VF_HARNESS(name) extern "C" void vh_##name()
template <class F> double vf_derivative(F f, double x, double = 1e-4) { return vf_diff(f(x), x); }
#else
struct VfReg { VfReg(const char* n, void (*f)()); };
#define VF_HARNESS(name) extern "C" void vh_##name(); static VfReg vfreg_##name(#name, vh_##name); extern "C" void vh_##name()
template <class F> double vf_derivative(F f, double x, double h = 1e-4)
{
	auto d = [&](double s) { return (f(x + s) - f(x - s)) / (2 * s); };
	// two Richardson steps
	double a = d(h), b = d(h / 2), c = d(h / 4);
	double ab = (4 * b - a) / 3, bc = (4 * c - b) / 3;
	return (16 * bc - ab) / 15;
}
#endif
