// Harness interface. The same harness source is executed symbolically (calls
// intercepted by the executor) and compiled natively to replay a
// counterexample against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vf_sym(void *p, size_t n, const char *name); // n arbitrary bytes
void vf_assume(int c);
void vf_assert(int c, const char *id);
void vf_assert_eqd(double a, double b, const char *id);                // same value (both NaN allowed)
void vf_assert_close(double a, double b, double tol, const char *id);  // equal over the reals (symbolic) / within tol (replay)
void vf_reach(const char *id);
int vf_choice(int n, const char *name);  // arbitrary value of [0,n), one path each
int vf_concrete(int v);                  // split into one path per feasible value
void vf_pin(double v, double want, int given); // later vf_assert_close/eqd: decided for this one value of v per path
void vf_limit(uint64_t steps);           // more steps than this without vf_nolimit: non-termination
void vf_nolimit();
int vf_symbolic();
int vf_real();
void vf_stop();
void vf_print(const char *);
void vf_show(uint64_t);
void vf_showd(double);
int vf_is_concrete(uint64_t);
double vf_freshd();
double vf_dec10(uint64_t n, int e);      // nearest double to n*10^e
int vf_fmtd(char *buf, double v, int prec, int conv);
const char *vf_file(const char *name, const char *data, size_t n); // install a file, returns its path
}
static inline int vf_int(const char *n) { int v; vf_sym(&v, sizeof v, n); return v; }
static inline unsigned char vf_byte(const char *n) { unsigned char v; vf_sym(&v, 1, n); return v; }
static inline bool vf_bool(const char *n) { return vf_byte(n) & 1; }
static inline double vf_dbl(const char *n) { double v; vf_sym(&v, sizeof v, n); return v; }
static inline int vf_range(int lo, int hi, const char *n) {
  if (hi - lo < 256 && hi >= lo) { int v = vf_byte(n); if (hi - lo < 255) vf_assume(v <= hi - lo); return lo + v; }
  int v = vf_int(n); vf_assume((v >= lo) & (v <= hi)); return v;
}
static inline double vf_drange(double lo, double hi, const char *n) { double v = vf_dbl(n); vf_assume((v >= lo) & (v <= hi)); return v; }
#define H(name) extern "C" void name()
