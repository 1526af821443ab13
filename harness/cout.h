// what the code under test prints to std::cout, item by item
#pragma once
#include "util.h"
#include <iostream>
#include <iomanip>
struct VfItem { std::string s; long i; double d; int kind; }; // 1 text, 2 integer, 3 number
namespace std {
struct VfSink {
  std::vector<VfItem> v;
  void text(const char *p, size_t n) { v.push_back({std::string(p, n), 0, 0, 1}); }
  VfSink &operator<<(const char *p) { text(p, strlen(p)); return *this; }
  VfSink &operator<<(const std::string &p) { text(p.data(), p.size()); return *this; }
  VfSink &operator<<(char c) { text(&c, 1); return *this; }
  VfSink &operator<<(int x) { v.push_back({std::string(), x, 0, 2}); return *this; }
  VfSink &operator<<(long x) { v.push_back({std::string(), x, 0, 2}); return *this; }
  VfSink &operator<<(unsigned x) { v.push_back({std::string(), (long)x, 0, 2}); return *this; }
  VfSink &operator<<(unsigned long x) { v.push_back({std::string(), (long)x, 0, 2}); return *this; }
  VfSink &operator<<(double x) { v.push_back({std::string(), 0, x, 3}); return *this; }
  VfSink &operator<<(float x) { v.push_back({std::string(), 0, x, 3}); return *this; }
  VfSink &operator<<(bool x) { v.push_back({std::string(), x, 0, 2}); return *this; }
  VfSink &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
};
inline VfSink vf_cout;
} // namespace std
// the item after the text item that begins with this label, or null
static inline const VfItem *shown(const char *label, int nth = 0) {
  auto &v = std::vf_cout.v;
  size_t n = strlen(label);
  for (size_t i = 0; i + 1 < v.size(); i++) {
    if (v[i].kind != 1) continue;
    const char *p = v[i].s.c_str();
    if (*p != '\n') continue; // labels start a line
    while (*p == '\n') p++;
    if (!strncmp(p, label, n) && nth-- == 0) return &v[i + 1];
  }
  return nullptr;
}
#define cout vf_cout
