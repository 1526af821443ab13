// a text file, damaged or cut short, and what a reader delivers from it
#pragma once
#include "fbuf.h"
struct Txt : FBuf {
  Txt() : FBuf(12000) {}
  char *lab(const char *t, const char *l) { char *p = line(t, 60); n--; raw(l); b[n++] = '\n'; return p; }
};
struct Got { int st; std::vector<double> v; bool refused; };
typedef std::vector<Got> Out;
static const int MAXREAD = 6;
#ifdef VF_THOROUGH
static const int WIDTH = 2;
#else
static const int WIDTH = 1;
#endif
// any one (two) characters of the file replaced by any others: the reader ends, within its memory, without an escaping exception
static void damage(size_t (*make)(Txt &), Out (*rd)(const char *), int part, int parts) {
  Txt f; make(f);
  int lo = f.n * part / parts, hi = f.n * (part + 1) / parts;
  if (part + 1 == parts) hi -= WIDTH - 1;
  int k = lo + vf_choice(hi - lo, "where");
  vf_sym(f.b + k, WIDTH, "damage");
  vf_limit(3000000);
  Out o = rd(f.install("x.dat"));
  vf_assert(o.size() >= 1, "ends");
  vf_reach("done");
}
// any line missing, doubled, exchanged with the next one, or lengthened
static void lines(size_t (*make)(Txt &), Out (*rd)(const char *)) {
  Txt f; make(f);
  int nl = 0; for (size_t i = 0; i < f.n; i++) nl += f.b[i] == '\n';
  int k = vf_choice(nl, "line"), how = vf_choice(8, "how");
  static const int add[] = {1, 30, 200, 700};
  Txt g; int at = 0; size_t held = 0, heldn = 0;
  auto put = [&](size_t i, size_t e) { memcpy(g.b + g.n, f.b + i, e - i); g.n += e - i; };
  for (size_t i = 0; i < f.n;) {
    size_t e = i; while (f.b[e] != '\n') e++;
    e++;
    if (at == k && how == 2) { held = i; heldn = e; }
    else for (int r = at == k && how < 2 ? how * 2 : 1; r > 0; r--) put(i, e);
    if (at == k && how > 2) { g.n--; for (int j = 0; j < add[(how - 3) % 4]; j++) g.b[g.n++] = how == 7 ? ' ' : '7'; g.b[g.n++] = '\n'; }
    if (heldn && at == k + 1) { put(held, heldn); heldn = 0; }
    i = e; at++;
  }
  vf_limit(3000000);
  Out o = rd(g.install("x.dat"));
  vf_assert(o.size() >= 1, "ends");
  vf_reach("done");
}
// any line cut at any column
static void shortened(size_t (*make)(Txt &), Out (*rd)(const char *)) {
  Txt f; make(f);
  size_t k = vf_choice((int)f.n, "where"), e = k;
  while (f.b[e] != '\n') e++;
  memmove(f.b + k, f.b + e, f.n - e); f.n -= e - k;
  vf_limit(3000000);
  Out o = rd(f.install("x.dat"));
  vf_assert(o.size() >= 1, "ends");
  vf_reach("done");
}
#define PART(x, i, n) H(c29_##x##_##i) { damage(x, rd_##x, i, n); }
// cut after any number of characters: what is delivered is what the complete file delivers at that place; of the last
// record at most one number is cut and the ones after it are blank
static bool blank(double x) { return x == 0 || x == GNSSBLANK; }
static void cut(size_t (*make)(Txt &), Out (*rd)(const char *), bool seq, bool partial) {
  Txt f; size_t h = make(f);
  size_t n = f.n;
  Out all = rd(f.install("all.dat"));
  size_t k = vf_choice((int)n, "cut");
  f.n = k;
  Out o = rd(f.install("cut.dat"));
  if (o.size() == 1 && o[0].refused) { vf_assert(k < h, "complete-header-accepted"); vf_reach("refused"); return; }
  bool ended = false;
  for (size_t i = 0; i < o.size(); i++) {
    if (seq && i >= all.size()) { vf_assert(o[i].st != 0, "no-more-than-the-complete-file"); break; }
    if (o[i].st > 0 || (o[i].v.empty() && o[i].st)) { ended = true; continue; }
    vf_assert(k >= h, "no-record-without-header");
    vf_assert(!seq || !ended, "nothing-after-an-error");
    vf_assert(all[i].st == o[i].st, "status");
    vf_assert(all[i].v.size() == o[i].v.size(), "same-number-of-values");
    bool last = partial && (i + 1 == o.size() || o[i + 1].st);
    size_t m = o[i].v.size(), diff = 0;
    for (size_t j = 0; j < m; j++) { bool d = o[i].v[j] == all[i].v[j]; if (last) diff += !d && !blank(o[i].v[j]); else vf_assert(d, "value-of-the-complete-file"); }
    vf_assert(diff <= 1, "only-the-field-cut-differs");
    vf_reach("delivered");
  }
  vf_reach("done");
}
