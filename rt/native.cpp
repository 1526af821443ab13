// Native replay runtime: inputs come from the file named by VF_REPLAY
// (lines "name hex", in order of use).
#include "vf.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
static std::map<std::string, std::deque<std::string>> &inputs() {
  static std::map<std::string, std::deque<std::string>> m;
  static bool done = false;
  if (!done) {
    done = true;
    const char *f = getenv("VF_REPLAY");
    if (f) {
      std::ifstream in(f);
      std::string n, h;
      while (in >> n >> h) if (n != "#") m[n].push_back(h); else std::getline(in, h);
    }
  }
  return m;
}
static std::string next(const char *name, size_t n) {
  std::string nm(name);
  for (auto &c : nm) if (c == ' ') c = '_';
  auto &q = inputs()[nm];
  std::string out(n, '\0');
  if (q.empty()) return out;
  std::string h = q.front();
  q.pop_front();
  for (size_t i = 0; i < n && 2 * i + 1 < h.size(); i++) out[i] = (char)strtol(h.substr(2 * i, 2).c_str(), nullptr, 16);
  return out;
}
extern "C" {
void vf_sym(void *p, size_t n, const char *name) { std::string s = next(name, n); memcpy(p, s.data(), n); }
void vf_assume(int c) { if (!c) { printf("VF ASSUME-FAIL\n"); fflush(nullptr); _Exit(5); } }
void vf_assert(int c, const char *id) { if (!c) { printf("VF ASSERT-FAIL %s\n", id); fflush(nullptr); _Exit(3); } }
void vf_assert_eqd(double a, double b, const char *id) {
  if (!(a == b || (std::isnan(a) && std::isnan(b)))) { printf("VF got %.17g want %.17g\n", a, b); vf_assert(0, id); }
}
void vf_assert_close(double a, double b, double tol, const char *id) {
  if (!(a == b || std::fabs(a - b) <= tol * (1 + std::fabs(b)) || (std::isnan(a) && std::isnan(b)))) { printf("VF got %.17g want %.17g\n", a, b); vf_assert(0, id); }
}
void vf_reach(const char *id) { printf("VF REACH %s\n", id); }
int vf_choice(int n, const char *name) {
  std::string s = next(name, 2); // low byte, high byte
  int k = (unsigned char)s[0] | (n > 256 ? (unsigned char)s[1] << 8 : 0);
  return k < n ? k : 0;
}
int vf_concrete(int v) { return v; }
void vf_pin(double v, double want, int given) { vf_assume(!given || v == want); }
void vf_limit(uint64_t) {}
void vf_nolimit() {}
int vf_symbolic() { return 0; }
int vf_real() { return 0; }
void vf_stop() { printf("VF STOP\n"); fflush(nullptr); _Exit(0); }
void vf_print(const char *s) { printf("VF %s\n", s); }
void vf_show(uint64_t v) { printf("VF %llu\n", (unsigned long long)v); }
void vf_showd(double v) { printf("VF %.17g\n", v); }
int vf_is_concrete(uint64_t) { return 1; }
double vf_freshd() { return 0; }
double vf_dec10(uint64_t n, int e) { char b[64]; snprintf(b, sizeof b, "%llue%d", (unsigned long long)n, e); return strtod(b, nullptr); }
int vf_fmtd(char *b, double v, int p, int c) { char f[16]; snprintf(f, sizeof f, "%%.%d%c", p, c); return sprintf(b, f, v); }
const char *vf_file(const char *name, const char *data, size_t n) {
  static std::vector<std::string *> keep;
  const char *d = getenv("VF_SCRATCH");
  auto *p = new std::string(std::string(d ? d : ".") + "/" + name);
  keep.push_back(p);
  FILE *fp = fopen(p->c_str(), "wb");
  if (!fp) { printf("VF cannot write %s\n", p->c_str()); _Exit(6); }
  fwrite(data, 1, n, fp);
  fclose(fp);
  return p->c_str();
}
}
#ifndef VF_ENTRY
#define VF_ENTRY harness
#endif
extern "C" void VF_ENTRY();
int main() { VF_ENTRY(); printf("VF OK\n"); fflush(nullptr); _Exit(0); }
