// Harness interface.  Under the symbolic executor these are intrinsics; in the native replay build they
// read the values of a counterexample (vs_native.cpp).
#pragma once
extern "C" {
double vs_double(const char* name, double lo, double hi, double pref);
int vs_int(const char* name, int lo, int hi);            // symbolic machine integer
int vs_choice(const char* name, int lo, int hi);         // one path per value
void vs_assume(bool c);
void vs_check(bool c, const char* label);
void vs_close(double x, double y, double rtol, double atol, const char* label);
void vs_ident(double x, double y, const char* label);    // same value
void vs_obs(const char* name, double v);                 // observed value, compared between executor and native run
int vs_symbolic();                                       // 1 under the executor, 0 natively
double vs_uf(const char* name, int n, ...);              // value of an environment stub, a function of its n (<=4) double arguments
double vs_ufr(const char* name, double lo, double hi, int n, ...);      // the same with values in [lo,hi]
double vs_ufm(const char* name, double lo, double hi, double x);        // the same, strictly increasing
}
#define VS_CASE(x) extern "C" void x()
