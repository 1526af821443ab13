#include "expr.hpp"
#include <algorithm>
#include <unordered_set>

bool g_real = false, g_fold = false;
std::vector<std::string> g_ufs;
std::vector<std::string> g_symNames;
static std::vector<Ref> g_nodes;
std::vector<Ref> &allNodes() { return g_nodes; }

uint32_t ufIndex(const std::string &n) {
  for (size_t i = 0; i < g_ufs.size(); i++)
    if (g_ufs[i] == n) return i;
  g_ufs.push_back(n);
  return g_ufs.size() - 1;
}

// ---- hash consing ---------------------------------------------------------
struct NHash { size_t operator()(const Node *n) const { return n->h; } };
struct NEq {
  bool operator()(const Node *a, const Node *b) const {
    return a->k == b->k && a->sort == b->sort && a->w == b->w && a->n == b->n &&
           a->aux == b->aux && a->c == b->c && a->a[0] == b->a[0] &&
           a->a[1] == b->a[1] && a->a[2] == b->a[2];
  }
};
static std::unordered_set<const Node *, NHash, NEq> g_tab;
static char *g_arena = nullptr;
static size_t g_left = 0;

static u128 bound(const Node *x) {
  u128 m = maskw(x->w);
  if (x->sort != SBV) return m;
  auto A = [&](int i) { return x->a[i]->ub; };
  switch (x->k) {
  case K_CONST: return x->c;
  case K_ZEXT: return A(0);
  case K_SEXT: return A(0) >> (x->a[0]->w - 1) ? m : A(0);
  case K_AND: return std::min(A(0), A(1));
  case K_OR: case K_XOR: { u128 v = A(0) | A(1); for (int i = 1; i < 128; i *= 2) v |= v >> i; return std::min(v, m); }
  case K_ITE: return std::max(A(1), A(2));
  case K_UREM: if (isC(x->a[1]) && x->a[1]->c) return std::min(x->a[1]->c - 1, A(0)); return m;
  case K_UDIV: if (isC(x->a[1]) && x->a[1]->c) return A(0) / x->a[1]->c; return m;
  case K_ADD: if (x->w <= 64 && A(0) + A(1) <= m) return A(0) + A(1); return m;
  case K_MUL: if (x->w <= 64 && !(A(0) >> 63) && !(A(1) >> 63) && A(0) * A(1) <= m) return A(0) * A(1); return m;
  case K_EXTRACT: return std::min(m, A(0) >> x->aux);
  case K_CONCAT: return x->w <= 128 ? (A(0) << x->a[1]->w) + A(1) : m;
  default: return m;
  }
}
static Ref cons(Kind k, Sort s, unsigned w, u128 c, uint32_t aux, Ref a = nullptr,
                Ref b = nullptr, Ref d = nullptr) {
  Node t;
  memset(&t, 0, sizeof t);
  t.k = k; t.sort = s; t.w = w; t.c = c; t.aux = aux;
  t.a[0] = a; t.a[1] = b; t.a[2] = d;
  t.n = d ? 3 : b ? 2 : a ? 1 : 0;
  size_t h = k * 0x9E3779B97F4A7C15ull + w * 1315423911u + s;
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((uint64_t)c); mix((uint64_t)(c >> 64)); mix(aux);
  mix((uint64_t)a >> 4); mix((uint64_t)b >> 4); mix((uint64_t)d >> 4);
  t.h = h;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  size_t sz = (sizeof(Node) + 15) & ~(size_t)15;
  if (g_left < sz) { g_left = 1 << 22; g_arena = (char *)aligned_alloc(16, g_left); }
  Node *n = (Node *)g_arena;
  g_arena += sz; g_left -= sz;
  memcpy(n, &t, sizeof t);
  n->ub = bound(n);
  n->id = g_nodes.size();
  g_nodes.push_back(n);
  g_tab.insert(n);
  return n;
}

Ref mkC(unsigned w, u128 v) { return cons(K_CONST, SBV, w, v & maskw(w), 0); }
Ref mkTrue() { static Ref r = mkC(1, 1); return r; }
Ref mkFalse() { static Ref r = mkC(1, 0); return r; }
Ref mkFCbits(Sort s, uint64_t b) { return cons(K_CONST, s, s == SF32 ? 32 : 64, b, 0); }
Ref mkFC(double v) { uint64_t b; memcpy(&b, &v, 8); return mkFCbits(SF64, b); }
static Ref mkFCs(Sort s, double v) {
  if (s == SF64) return mkFC(v);
  float f = (float)v; uint32_t b; memcpy(&b, &f, 4);
  return mkFCbits(SF32, b);
}
double fval(Ref c) {
  if (c->sort == SF32) { uint32_t b = (uint32_t)c->c; float f; memcpy(&f, &b, 4); return f; }
  uint64_t b = (uint64_t)c->c; double d; memcpy(&d, &b, 8); return d;
}
Ref mkSym(unsigned w, const std::string &name) {
  g_symNames.push_back(name);
  return cons(K_SYM, SBV, w, 0, g_symNames.size() - 1);
}

static inline u128 ub(Ref x) { return x->ub; }
static bool nonneg(Ref x) { return !(ub(x) >> (x->w - 1)); }

Ref mkNot(Ref a) { return mkXor(a, mkTrue()); }
static bool isNot(Ref a) { return a->w == 1 && a->k == K_XOR && a->a[1] == mkTrue(); }
static bool constIte(Ref a) { return a->k == K_ITE && a->sort == SBV && isC(a->a[1]) && isC(a->a[2]); }

Ref mkAdd(Ref a, Ref b) {
  unsigned w = a->w;
  if (w == 1) return mkXor(a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkC(w, a->c + b->c);
    if (b->c == 0) return a;
    if (a->k == K_ADD && isC(a->a[1])) return mkAdd(a->a[0], mkC(w, a->a[1]->c + b->c));
    if (constIte(a)) return mkIte(a->a[0], mkAdd(a->a[1], b), mkAdd(a->a[2], b));
  } else {
    if (a->k == K_ADD && isC(a->a[1])) return mkAdd(mkAdd(a->a[0], b), a->a[1]);
    if (b->k == K_ADD && isC(b->a[1])) return mkAdd(mkAdd(a, b->a[0]), b->a[1]);
    // x + (-1)*x
    auto negOf = [](Ref x) -> Ref { return x->k == K_MUL && isC(x->a[1]) && x->a[1]->c == maskw(x->w) ? x->a[0] : nullptr; };
    if (negOf(a) == b || negOf(b) == a) return mkC(w, 0);
    if (a->k == K_ADD) { if (negOf(b) && a->a[0] == negOf(b)) return a->a[1]; if (negOf(b) && a->a[1] == negOf(b)) return a->a[0]; }
    if (a->id > b->id) std::swap(a, b);
  }
  return cons(K_ADD, SBV, w, 0, 0, a, b);
}
Ref mkSub(Ref a, Ref b) {
  if (a == b) return mkC(a->w, 0);
  if (isC(b)) return mkAdd(a, mkC(a->w, -b->c));
  return mkAdd(a, mkMul(b, mkC(a->w, maskw(a->w))));
}
Ref mkMul(Ref a, Ref b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkC(w, a->c * b->c);
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if (a->k == K_MUL && isC(a->a[1])) return mkMul(a->a[0], mkC(w, a->a[1]->c * b->c));
    if ((b->c & (b->c - 1)) == 0 && b->c != maskw(w)) {
      unsigned s = 0; u128 v = b->c; while (v > 1) { v >>= 1; s++; }
      return mkShl(a, mkC(w, s));
    }
    if (a->k == K_ADD && isC(a->a[1])) return mkAdd(mkMul(a->a[0], b), mkC(w, a->a[1]->c * b->c));
    if (b->c == maskw(w) && a->k == K_ADD) return mkAdd(mkMul(a->a[0], b), mkMul(a->a[1], b));
    if (constIte(a)) return mkIte(a->a[0], mkMul(a->a[1], b), mkMul(a->a[2], b));
  } else if (a->id > b->id) std::swap(a, b);
  if (w == 1) return mkAnd(a, b);
  return cons(K_MUL, SBV, w, 0, 0, a, b);
}
static Ref divlike(Kind k, Ref a, Ref b) {
  unsigned w = a->w;
  if (isC(b) && b->c != 0) {
    if (isC(a)) {
      i128 sa = sgn(a->c, w), sb = sgn(b->c, w);
      switch (k) {
      case K_UDIV: return mkC(w, a->c / b->c);
      case K_UREM: return mkC(w, a->c % b->c);
      case K_SDIV: return mkC(w, (u128)(sb == -1 ? -sa : sa / sb));
      default: return mkC(w, (u128)(sb == -1 ? 0 : sa % sb));
      }
    }
    if (k == K_SDIV && nonneg(a) && nonneg(b)) return mkUDiv(a, b);
    if (k == K_SREM && nonneg(a) && nonneg(b)) return mkURem(a, b);
    if (b->c == 1) return (k == K_UDIV || k == K_SDIV) ? a : mkC(w, 0);
    if ((k == K_UDIV || k == K_UREM) && (b->c & (b->c - 1)) == 0) {
      unsigned s = 0; u128 v = b->c; while (v > 1) { v >>= 1; s++; }
      return k == K_UDIV ? mkLShr(a, mkC(w, s)) : mkAnd(a, mkC(w, b->c - 1));
    }
    if (k == K_UDIV && ub(a) < b->c) return mkC(w, 0);
    if (k == K_UREM && ub(a) < b->c) return a;
    if ((k == K_UDIV || k == K_UREM) && a->k == K_ZEXT && ub(a->a[0]) >= b->c && (b->c & ~maskw(a->a[0]->w)) == 0)
      return mkZExt(divlike(k, a->a[0], mkC(a->a[0]->w, b->c)), w);
  }
  return cons(k, SBV, w, 0, 0, a, b);
}
Ref mkUDiv(Ref a, Ref b) { return divlike(K_UDIV, a, b); }
Ref mkSDiv(Ref a, Ref b) { return divlike(K_SDIV, a, b); }
Ref mkURem(Ref a, Ref b) { return divlike(K_UREM, a, b); }
Ref mkSRem(Ref a, Ref b) { return divlike(K_SREM, a, b); }

Ref mkAnd(Ref a, Ref b) {
  unsigned w = a->w;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkC(w, a->c & b->c);
    if (b->c == 0) return b;
    if (b->c == maskw(w)) return a;
    if (a->k == K_AND && isC(a->a[1])) return mkAnd(a->a[0], mkC(w, a->a[1]->c & b->c));
    if ((b->c & (b->c + 1)) == 0) { // low mask
      unsigned k = 0; u128 v = b->c; while (v) { k++; v >>= 1; }
      return mkZExt(mkExtract(a, 0, k), w);
    }
    if (constIte(a)) return mkIte(a->a[0], mkAnd(a->a[1], b), mkAnd(a->a[2], b));
    if (a->k == K_ZEXT && (b->c & ~maskw(a->a[0]->w)) == 0) return mkZExt(mkAnd(a->a[0], mkC(a->a[0]->w, b->c)), w);
    if (a->k == K_ZEXT) return mkAnd(a, mkC(w, b->c & maskw(a->a[0]->w)));
  } else {
    if (w == 1) {
      if (isNot(a) && a->a[0] == b) return mkFalse();
      if (isNot(b) && b->a[0] == a) return mkFalse();
      if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return a;
      if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return b;
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return cons(K_AND, SBV, w, 0, 0, a, b);
}
Ref mkOr(Ref a, Ref b) {
  unsigned w = a->w;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkC(w, a->c | b->c);
    if (b->c == 0) return a;
    if (b->c == maskw(w)) return b;
    if (a->k == K_OR && isC(a->a[1])) return mkOr(a->a[0], mkC(w, a->a[1]->c | b->c));
    if (constIte(a)) return mkIte(a->a[0], mkOr(a->a[1], b), mkOr(a->a[2], b));
  }
  if (w == 1) {
    if (isNot(a) && a->a[0] == b) return mkTrue();
    if (isNot(b) && b->a[0] == a) return mkTrue();
    if (a->k == K_OR && (a->a[0] == b || a->a[1] == b)) return a;
    if (b->k == K_OR && (b->a[0] == a || b->a[1] == a)) return b;
  } else {
    for (int i = 0; i < 2; i++, std::swap(a, b))
      if (a->k == K_CONCAT && isC(a->a[1]) && a->a[1]->c == 0 && a->a[1]->w < w &&
          ub(b) <= maskw(a->a[1]->w))
        return mkConcat(a->a[0], mkExtract(b, 0, a->a[1]->w));
    // zext(concat(x,0)) | y
    for (int i = 0; i < 2; i++, std::swap(a, b))
      if (a->k == K_ZEXT && a->a[0]->k == K_CONCAT && isC(a->a[0]->a[1]) && a->a[0]->a[1]->c == 0 &&
          ub(b) <= maskw(a->a[0]->a[1]->w))
        return mkZExt(mkConcat(a->a[0]->a[0], mkExtract(b, 0, a->a[0]->a[1]->w)), w);
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return cons(K_OR, SBV, w, 0, 0, a, b);
}
Ref mkXor(Ref a, Ref b) {
  unsigned w = a->w;
  if (a == b) return mkC(w, 0);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkC(w, a->c ^ b->c);
    if (b->c == 0) return a;
    if (a->k == K_XOR && isC(a->a[1])) return mkXor(a->a[0], mkC(w, a->a[1]->c ^ b->c));
    if (constIte(a)) return mkIte(a->a[0], mkXor(a->a[1], b), mkXor(a->a[2], b));
  } else if (a->id > b->id) std::swap(a, b);
  return cons(K_XOR, SBV, w, 0, 0, a, b);
}
Ref mkShl(Ref a, Ref b) {
  unsigned w = a->w;
  if (isC(b)) {
    if (b->c >= w) return mkC(w, 0);
    if (b->c == 0) return a;
    if (isC(a)) return mkC(w, a->c << (unsigned)b->c);
    unsigned k = (unsigned)b->c;
    return mkConcat(mkExtract(a, 0, w - k), mkC(k, 0));
  }
  return cons(K_SHL, SBV, w, 0, 0, a, b);
}
Ref mkLShr(Ref a, Ref b) {
  unsigned w = a->w;
  if (isC(b)) {
    if (b->c >= w) return mkC(w, 0);
    if (b->c == 0) return a;
    unsigned k = (unsigned)b->c;
    return mkZExt(mkExtract(a, k, w - k), w);
  }
  return cons(K_LSHR, SBV, w, 0, 0, a, b);
}
Ref mkAShr(Ref a, Ref b) {
  unsigned w = a->w;
  if (isC(b)) {
    unsigned k = b->c >= w ? w - 1 : (unsigned)b->c;
    if (k == 0) return a;
    return mkSExt(mkExtract(a, k, w - k), w);
  }
  return cons(K_ASHR, SBV, w, 0, 0, a, b);
}
Ref mkEq(Ref a, Ref b) {
  if (a == b) return mkTrue();
  if (isC(a)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(b)) {
    if (isC(a)) return a->c == b->c ? mkTrue() : mkFalse();
    if (w == 1) return b->c ? a : mkNot(a);
    if (b->c > ub(a)) return mkFalse();
    switch (a->k) {
    case K_ZEXT: return mkEq(a->a[0], mkC(a->a[0]->w, b->c));
    case K_SEXT: {
      u128 t = b->c & maskw(a->a[0]->w);
      if (((u128)sgn(t, a->a[0]->w) & maskw(w)) != b->c) return mkFalse();
      return mkEq(a->a[0], mkC(a->a[0]->w, t));
    }
    case K_CONCAT: {
      unsigned lw = a->a[1]->w;
      Ref l = mkEq(a->a[1], mkC(lw, b->c));
      if (l == mkFalse()) return l;
      return mkAnd(mkEq(a->a[0], mkC(a->a[0]->w, b->c >> lw)), l);
    }
    case K_OR: if (isC(a->a[1]) && (a->a[1]->c & ~b->c)) return mkFalse(); break;
    case K_ADD: if (isC(a->a[1])) return mkEq(a->a[0], mkC(w, b->c - a->a[1]->c)); break;
    case K_XOR: if (isC(a->a[1])) return mkEq(a->a[0], mkC(w, b->c ^ a->a[1]->c)); break;
    case K_ITE:
      if (isC(a->a[1]) || isC(a->a[2])) {
        Ref x = isC(a->a[1]) ? (a->a[1]->c == b->c ? mkTrue() : mkFalse()) : mkEq(a->a[1], b);
        Ref y = isC(a->a[2]) ? (a->a[2]->c == b->c ? mkTrue() : mkFalse()) : mkEq(a->a[2], b);
        return mkIte(a->a[0], x, y);
      }
      break;
    case K_MUL: if (isC(a->a[1]) && a->a[1]->c == maskw(w)) return mkEq(a->a[0], mkC(w, -b->c)); break;
    default: break;
    }
  } else {
    if (w == 1) return mkNot(mkXor(a, b));
    if ((a->k == K_ZEXT && b->k == K_ZEXT) || (a->k == K_SEXT && b->k == K_SEXT))
      if (a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->a[1]->w == b->a[1]->w)
      return mkAnd(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
    if (a->k == K_ADD && b->k == K_ADD && isC(a->a[1]) && a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
    if (a->k == K_ADD && (a->a[0] == b || a->a[1] == b)) return mkEq(a->a[0] == b ? a->a[1] : a->a[0], mkC(w, 0));
    if (b->k == K_ADD && (b->a[0] == a || b->a[1] == a)) return mkEq(b->a[0] == a ? b->a[1] : b->a[0], mkC(w, 0));
    // a + -1*b == 0 is handled by z3
    if (a->id > b->id) std::swap(a, b);
  }
  return cons(K_EQ, SBV, 1, 0, 0, a, b);
}
Ref mkUlt(Ref a, Ref b) {
  unsigned w = a->w;
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return a->c < b->c ? mkTrue() : mkFalse();
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isC(b)) {
    if (b->c == 0) return mkFalse();
    if (b->c == 1) return mkEq(a, mkC(w, 0));
    if (ub(a) < b->c) return mkTrue();
    if (b->c == maskw(w)) return mkNot(mkEq(a, b));
    if (a->k == K_ZEXT) return mkUlt(a->a[0], mkC(a->a[0]->w, b->c));
    if (constIte(a)) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
  } else if (isC(a)) {
    if (a->c == maskw(w)) return mkFalse();
    if (a->c == 0) return mkNot(mkEq(b, a));
    if (ub(b) <= a->c) return mkFalse();
    if (b->k == K_ZEXT) return mkUlt(mkC(b->a[0]->w, a->c), b->a[0]);
    if (constIte(b)) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
  } else if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w)
    return mkUlt(a->a[0], b->a[0]);
  return cons(K_ULT, SBV, 1, 0, 0, a, b);
}
Ref mkUle(Ref a, Ref b) { return mkNot(mkUlt(b, a)); }
Ref mkSlt(Ref a, Ref b) {
  unsigned w = a->w;
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return sgn(a->c, w) < sgn(b->c, w) ? mkTrue() : mkFalse();
  if (w == 1) return mkAnd(a, mkNot(b));
  bool na = nonneg(a), nb = nonneg(b);
  if (na && nb) return mkUlt(a, b);
  if (isC(b) && na && sgn(b->c, w) <= 0) return mkFalse();
  if (isC(a) && nb && sgn(a->c, w) < 0) return mkTrue();
  if (a->k == K_SEXT && isC(b)) {
    unsigned v = a->a[0]->w; i128 s = sgn(b->c, w);
    i128 lo = -((i128)1 << (v - 1)), hi = ((i128)1 << (v - 1)) - 1;
    if (s > hi) return mkTrue();
    if (s <= lo) return mkFalse();
    return mkSlt(a->a[0], mkC(v, (u128)s));
  }
  if (b->k == K_SEXT && isC(a)) {
    unsigned v = b->a[0]->w; i128 s = sgn(a->c, w);
    i128 lo = -((i128)1 << (v - 1)), hi = ((i128)1 << (v - 1)) - 1;
    if (s >= hi) return mkFalse();
    if (s < lo) return mkTrue();
    return mkSlt(mkC(v, (u128)s), b->a[0]);
  }
  if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return mkSlt(a->a[0], b->a[0]);
  if (isC(b) && constIte(a)) return mkIte(a->a[0], mkSlt(a->a[1], b), mkSlt(a->a[2], b));
  if (isC(a) && constIte(b)) return mkIte(b->a[0], mkSlt(a, b->a[1]), mkSlt(a, b->a[2]));
  return cons(K_SLT, SBV, 1, 0, 0, a, b);
}
Ref mkSle(Ref a, Ref b) { return mkNot(mkSlt(b, a)); }
Ref mkIte(Ref c, Ref a, Ref b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->a[0], b, a);
  if (a->k == K_ITE && a->a[0] == c) return mkIte(c, a->a[1], b);
  if (b->k == K_ITE && b->a[0] == c) return mkIte(c, a, b->a[2]);
  if (a->w == 1 && a->sort == SBV) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (c == a) return mkOr(c, b);
    if (c == b) return mkAnd(c, a);
  }
  return cons(K_ITE, (Sort)a->sort, a->w, 0, 0, c, a, b);
}
Ref mkZExt(Ref a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(w, a->c);
  if (a->k == K_ZEXT) return mkZExt(a->a[0], w);
  if (constIte(a)) return mkIte(a->a[0], mkC(w, a->a[1]->c), mkC(w, a->a[2]->c));
  return cons(K_ZEXT, SBV, w, 0, 0, a);
}
Ref mkSExt(Ref a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(w, (u128)sgn(a->c, a->w));
  if (a->k == K_SEXT) return mkSExt(a->a[0], w);
  if (a->w > 1 && nonneg(a)) return mkZExt(a, w);
  if (a->w == 1) return mkIte(a, mkC(w, maskw(w)), mkC(w, 0));
  if (constIte(a)) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return cons(K_SEXT, SBV, w, 0, 0, a);
}
Ref mkExtract(Ref a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
  case K_CONST: return mkC(w, a->c >> lo);
  case K_EXTRACT: return mkExtract(a->a[0], a->aux + lo, w);
  case K_CONCAT: {
    unsigned lw = a->a[1]->w;
    if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
    return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo));
  }
  case K_ZEXT: {
    unsigned iw = a->a[0]->w;
    if (lo >= iw) return mkC(w, 0);
    if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
    return mkZExt(mkExtract(a->a[0], lo, iw - lo), w);
  }
  case K_SEXT: {
    unsigned iw = a->a[0]->w;
    if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
    if (lo < iw) return mkSExt(mkExtract(a->a[0], lo, iw - lo), w);
    break;
  }
  case K_ITE:
    if (isC(a->a[1]) || isC(a->a[2]))
      return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
    break;
  case K_AND: return mkAnd(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case K_OR: return mkOr(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case K_XOR: return mkXor(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case K_ADD: if (lo == 0) return mkAdd(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
  case K_MUL: if (lo == 0) return mkMul(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
  default: break;
  }
  return cons(K_EXTRACT, SBV, w, 0, lo, a);
}
Ref mkConcat(Ref h, Ref l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return mkC(w, (h->c << l->w) | l->c);
  if (isC(h) && h->c == 0) return mkZExt(l, w);
  if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a[0] == l->a[0] && h->aux == l->aux + l->w)
    return mkExtract(h->a[0], l->aux, w);
  // the low part of the same term, rewritten when it was extracted
  if (h->k == K_EXTRACT && h->aux >= l->w && (h->a[0]->k == K_ADD || h->a[0]->k == K_MUL || h->a[0]->k == K_SEXT) &&
      mkExtract(h->a[0], h->aux - l->w, l->w) == l)
    return mkExtract(h->a[0], h->aux - l->w, w);
  // keep right-nested normal form: concat(x, concat(y, z))
  if (h->k == K_CONCAT) return mkConcat(h->a[0], mkConcat(h->a[1], l));
  if (h->k == K_EXTRACT && l->k == K_CONCAT && l->a[0]->k == K_EXTRACT && l->a[0]->a[0] == h->a[0] &&
      h->aux == l->a[0]->aux + l->a[0]->w)
    return mkConcat(mkExtract(h->a[0], l->a[0]->aux, h->w + l->a[0]->w), l->a[1]);
  if (isC(h) && l->k == K_CONCAT && isC(l->a[0]))
    return mkConcat(mkConcat(h, l->a[0]), l->a[1]);
  return cons(K_CONCAT, SBV, w, 0, 0, h, l);
}

// ---- floating point -------------------------------------------------------
Ref mkB2F(Ref a, Sort s) {
  if (isC(a)) return mkFCbits(s, (uint64_t)a->c);
  if (a->k == K_F2B && a->a[0]->sort == s) return a->a[0];
  if (a->k == K_ITE) return mkIte(a->a[0], mkB2F(a->a[1], s), mkB2F(a->a[2], s));
  return cons(K_B2F, s, a->w, 0, 0, a);
}
Ref mkF2B(Ref a) {
  if (isC(a)) return mkC(a->w, a->c);
  if (a->k == K_B2F) return a->a[0];
  if (a->k == K_ITE) return mkIte(a->a[0], mkF2B(a->a[1]), mkF2B(a->a[2]));
  return cons(K_F2B, SBV, a->w, 0, 0, a);
}
static Ref foldF(Sort s, double (*f)(double, double), Ref a, Ref b) {
  double x = fval(a), y = fval(b), r;
  if (s == SF32) {
    if (g_real) return nullptr;
    // double arithmetic then rounding is exact for + - * / sqrt on floats
    r = f(x, y);
    return mkFCs(s, r);
  }
  feclearexcept(FE_ALL_EXCEPT);
  volatile double vx = x, vy = y;
  volatile double vr = f(vx, vy);
  r = vr;
  bool inex = fetestexcept(FE_INEXACT | FE_UNDERFLOW | FE_OVERFLOW);
  if (g_real && ((inex && !g_fold) || !std::isfinite(r))) return nullptr;
  return mkFC(r);
}
// non-negative integers below 2^53 held as doubles stay integers
static bool exactInt(Ref x) { return x->sort == SF64 && x->k == K_U2F && x->a[0]->w <= 64 && x->a[0]->ub <= ((u128)1 << 53); }
// integers of either sign: value as a 64-bit term and an interval
static bool signedInt(Ref f, Ref &v, i128 &lo, i128 &hi, bool &neg) {
  neg = f->k == K_FNEG;
  Ref x = neg ? f->a[0] : f;
  if (f->sort != SF64) return false;
  if (isC(f)) {
    double d = fval(f);
    if (!(std::fabs(d) < 4e15) || d != std::floor(d) || (d == 0 && std::signbit(d))) return false;
    lo = hi = (i128)d; v = mkC(64, (u128)(i128)d); neg = false;
    return true;
  }
  if (exactInt(x) && x->a[0]->ub < ((u128)1 << 52)) { v = mkZExt(x->a[0], 64); lo = 0; hi = (i128)x->a[0]->ub; }
  else if (x->k == K_S2F && x->a[0]->w <= 52) { v = mkSExt(x->a[0], 64); lo = -((i128)1 << (x->a[0]->w - 1)); hi = -lo - 1; }
  else return false;
  if (neg) { v = mkSub(mkC(64, 0), v); std::swap(lo, hi); lo = -lo; hi = -hi; }
  return true;
}
static Ref fromInt(Ref v, i128 lo, i128 hi) { // v: 64 bits, |v| < 2^52
  unsigned w = 2;
  while (w < 53 && (lo < -((i128)1 << (w - 1)) || hi >= ((i128)1 << (w - 1)))) w++;
  return mkS2F(mkExtract(v, 0, w), SF64);
}
static bool posIntC(Ref x) { double v; return isC(x) && x->sort == SF64 && (v = fval(x)) > 0 && v == std::floor(v) && v < 9e15; }
// c-chain of roundings of one integer: monotone in it
static bool chain(Ref f, Ref &x, std::vector<std::pair<int, double>> &ops, int &dir) {
  dir = 1;
  for (;;) {
    if (exactInt(f)) { x = f->a[0]; std::reverse(ops.begin(), ops.end()); return true; }
    if (f->sort != SF64) return false;
    double v;
    switch (f->k) {
    case K_FNEG: ops.push_back({K_FNEG, 0}); dir = -dir; f = f->a[0]; continue;
    case K_FMUL: case K_FADD: {
      int i = isC(f->a[0]) ? 0 : 1;
      if (!isC(f->a[i]) || !std::isfinite(v = fval(f->a[i])) || (f->k == K_FMUL && v <= 0)) return false;
      ops.push_back({f->k, v}); f = f->a[1 - i]; continue;
    }
    case K_FDIV: if (!isC(f->a[1]) || !std::isfinite(v = fval(f->a[1])) || v <= 0) return false; ops.push_back({K_FDIV, v}); f = f->a[0]; continue;
    default: return false;
    }
  }
}
static double runChain(const std::vector<std::pair<int, double>> &ops, uint64_t n) {
  volatile double r = (double)n;
  for (auto &o : ops) {
    volatile double c = o.second;
    switch (o.first) { case K_FNEG: r = -r; break; case K_FMUL: r = r * c; break; case K_FADD: r = r + c; break; default: r = r / c; }
  }
  return r;
}
// comparison of such a chain with a constant is a comparison of the integer
static Ref chainCmp(Kind k, Ref f, double c, bool chainLeft) {
  Ref x; std::vector<std::pair<int, double>> ops; int dir;
  if (g_real || !std::isfinite(c) || !chain(f, x, ops, dir)) return nullptr;
  uint64_t top = (uint64_t)x->ub;
  // least n in [0,top+1] for which p holds (p monotone false->true)
  auto least = [&](auto p) { uint64_t lo = 0, hi = top + 1; while (lo < hi) { uint64_t m = lo + (hi - lo) / 2; if (p(runChain(ops, m))) hi = m; else lo = m + 1; } return lo; };
  Ref X = mkZExt(x, 64);
  auto ge = [&](uint64_t n) { return n == 0 ? mkTrue() : n > top ? mkFalse() : mkUle(mkC(64, n), X); };
  uint64_t a, b;
  if (dir > 0) { a = least([&](double v) { return v >= c; }); b = least([&](double v) { return v > c; }); }
  else { a = least([&](double v) { return v <= c; }); b = least([&](double v) { return v < c; }); }
  // dir>0: v<c <=> n<a, v<=c <=> n<b ; dir<0: v>c <=> n<a, v>=c <=> n<b
  if (k == K_FEQ) return mkAnd(ge(a), mkNot(ge(b)));
  bool less = k == K_FLT;
  if (chainLeft == (dir > 0)) return less ? mkNot(ge(a)) : mkNot(ge(b)); // v<c, v<=c (or c<v, c<=v when decreasing)
  return less ? ge(b) : ge(a);
}
Ref mkFBin(Kind k, Ref a, Ref b) {
  Sort s = (Sort)a->sort;
  if (isC(a) && isC(b)) {
    Ref r = nullptr;
    switch (k) {
    case K_FADD: r = foldF(s, [](double x, double y) { return x + y; }, a, b); break;
    case K_FSUB: r = foldF(s, [](double x, double y) { return x - y; }, a, b); break;
    case K_FMUL: r = foldF(s, [](double x, double y) { return x * y; }, a, b); break;
    case K_FDIV: r = foldF(s, [](double x, double y) { return x / y; }, a, b); break;
    case K_FREM: r = foldF(s, [](double x, double y) { return fmod(x, y); }, a, b); break;
    default: break;
    }
    if (r) return r;
  }
  if (k == K_FSUB) { // x - y == x + (-y) exactly, in both semantics
    return mkFBin(K_FADD, a, mkFUn(K_FNEG, b));
  }
  auto is = [](Ref x, double v) { return isC(x) && fval(x) == v && !(v == 0 && std::signbit(fval(x))); };
  if (k == K_FMUL) {
    if (is(a, 1)) return b;
    if (is(b, 1)) return a;
    // pull signs out: (-x)*y = -(x*y) exactly (NaN sign aside)
    if (a->k == K_FNEG) return mkFUn(K_FNEG, mkFBin(K_FMUL, a->a[0], b));
    if (b->k == K_FNEG) return mkFUn(K_FNEG, mkFBin(K_FMUL, a, b->a[0]));
    if (isC(a) && std::signbit(fval(a))) return mkFUn(K_FNEG, mkFBin(K_FMUL, mkFUn(K_FNEG, a), b));
    if (isC(b) && std::signbit(fval(b))) return mkFUn(K_FNEG, mkFBin(K_FMUL, a, mkFUn(K_FNEG, b)));
    if (g_real && (is(a, 0) || is(b, 0))) return mkFCs(s, 0);
  }
  if (k == K_FDIV) {
    if (is(b, 1)) return a;
    if (a->k == K_FNEG) return mkFUn(K_FNEG, mkFBin(K_FDIV, a->a[0], b));
    if (b->k == K_FNEG) return mkFUn(K_FNEG, mkFBin(K_FDIV, a, b->a[0]));
    if (isC(a) && std::signbit(fval(a))) return mkFUn(K_FNEG, mkFBin(K_FDIV, mkFUn(K_FNEG, a), b));
    if (isC(b) && std::signbit(fval(b))) return mkFUn(K_FNEG, mkFBin(K_FDIV, a, mkFUn(K_FNEG, b)));
    if (g_real && is(a, 0)) return a;
  }
  if (k == K_FADD) {
    auto isnz = [](Ref x) { return isC(x) && fval(x) == 0 && std::signbit(fval(x)); };
    if (isnz(a)) return b;
    if (isnz(b)) return a;
    if (g_real) {
      if (is(a, 0)) return b;
      if (is(b, 0)) return a;
      if (a->k == K_FNEG && a->a[0] == b) return mkFCs(s, 0);
      if (b->k == K_FNEG && b->a[0] == a) return mkFCs(s, 0);
    }
  }
  if (!g_real && (k == K_FADD || k == K_FMUL)) {
    Ref x = exactInt(a) ? a : b, y = x == a ? b : a;
    if (exactInt(x) && (exactInt(y) || posIntC(y))) {
      Ref i = mkZExt(x->a[0], 64), j = exactInt(y) ? mkZExt(y->a[0], 64) : mkC(64, (u128)fval(y));
      if (k == K_FADD ? i->ub + j->ub <= ((u128)1 << 53) : isC(j) && i->ub * j->ub <= ((u128)1 << 53)) return mkU2F(k == K_FADD ? mkAdd(i, j) : mkMul(i, j), s);
    }
  }
  if (!g_real && (k == K_FADD || (k == K_FMUL && (isC(a) || isC(b))))) {
    Ref x, y; i128 l1, h1, l2, h2; bool n1, n2;
    if (signedInt(a, x, l1, h1, n1) && signedInt(b, y, l2, h2, n2)) {
      const i128 L = (i128)1 << 51;
      if (k == K_FADD && !(n1 && n2) && l1 + l2 > -L && h1 + h2 < L) return fromInt(mkAdd(x, y), l1 + l2, h1 + h2);
      if (k == K_FMUL && !n1 && !n2 && (l1 == h1 ? l1 : l2) > 0) {
        i128 c = l1 == h1 ? l1 : l2, l = l1 == h1 ? l2 : l1, h = l1 == h1 ? h2 : h1;
        if (c < L && l > -L && h < L && l * c > -L && h * c < L) return fromInt(mkMul(x, y), l * c, h * c);
      }
    }
  }
  if (k == K_FADD || k == K_FMUL)
    if (a->id > b->id) std::swap(a, b);
  return cons(k, s, a->w, 0, 0, a, b);
}
Ref mkFUn(Kind k, Ref a) {
  Sort s = (Sort)a->sort;
  if (isC(a)) {
    double x = fval(a);
    switch (k) {
    case K_FNEG: return mkFCbits(s, (uint64_t)a->c ^ (s == SF32 ? 0x80000000ull : 0x8000000000000000ull));
    case K_FABS: return mkFCbits(s, (uint64_t)a->c & (s == SF32 ? 0x7fffffffull : 0x7fffffffffffffffull));
    case K_FSQRT: {
      if (!g_real) return mkFCs(s, std::sqrt(x));
      double r = std::sqrt(x);
      if (std::fma(r, r, -x) == 0 || (g_fold && x >= 0)) return mkFCs(s, r);
      break;
    }
    default: break;
    }
  }
  if (k == K_FNEG && a->k == K_FNEG) return a->a[0];
  if (k == K_FABS && a->k == K_U2F) return a;
  if (k == K_FABS && a->k == K_S2F && a->sort == SF64 && a->a[0]->w <= 52 && !g_real) {
    Ref x = a->a[0];
    return mkU2F(mkIte(mkSlt(x, mkC(x->w, 0)), mkSub(mkC(x->w, 0), x), x), SF64);
  }
  if (k == K_FABS && (a->k == K_FNEG || a->k == K_FABS)) return mkFUn(K_FABS, a->a[0]);
  if (a->k == K_ITE && k != K_FSQRT && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkFUn(k, a->a[1]), mkFUn(k, a->a[2]));
  return cons(k, s, a->w, 0, 0, a);
}
Ref mkFMA(Ref a, Ref b, Ref c) {
  if (isC(a) && isC(b) && isC(c) && !g_real) return mkFCs((Sort)a->sort, std::fma(fval(a), fval(b), fval(c)));
  if (g_real) return mkFBin(K_FADD, mkFBin(K_FMUL, a, b), c);
  return cons(K_FMA, (Sort)a->sort, a->w, 0, 0, a, b, c);
}
Ref mkFCmp(Kind k, Ref a, Ref b) {
  if (isC(a) && isC(b)) {
    double x = fval(a), y = fval(b);
    bool r = k == K_FEQ ? x == y : k == K_FLT ? x < y : k == K_FLE ? x <= y : (std::isnan(x) || std::isnan(y));
    return r ? mkTrue() : mkFalse();
  }
  if (g_real && k == K_FUNO) return mkFalse();
  if (g_real && a == b) return k == K_FLT ? mkFalse() : mkTrue();
  if (a == b && k == K_FLT) return mkFalse();
  if (k == K_FUNO && !g_real) { // such a chain is never NaN
    Ref x; std::vector<std::pair<int, double>> ops; int dir;
    bool ca = isC(a) ? !std::isnan(fval(a)) : chain(a, x, ops, dir);
    ops.clear();
    bool cb = isC(b) ? !std::isnan(fval(b)) : chain(b, x, ops, dir);
    if (ca && cb) return mkFalse();
    if (ca) a = b; else if (cb) b = a;
  }
  if (k == K_FUNO) {
    while (a->k == K_FNEG || a->k == K_FABS) a = a->a[0];
    while (b->k == K_FNEG || b->k == K_FABS) b = b->a[0];
    if (isC(a) && isC(b)) return std::isnan(fval(a)) || std::isnan(fval(b)) ? mkTrue() : mkFalse();
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (std::isnan(fval(b))) return mkTrue(); if (a->k == K_S2F || a->k == K_U2F) return mkFalse(); b = a; }
    if (a->k == K_S2F || a->k == K_U2F) a = b;
    if (b->k == K_S2F || b->k == K_U2F) b = a;
    if (a->k == K_S2F || a->k == K_U2F) return mkFalse();
    if (a->id > b->id) std::swap(a, b);
  }
  if (k == K_FEQ && a == b) return mkNot(mkFCmp(K_FUNO, a, a));
  if (k == K_FLE && a == b) return mkNot(mkFCmp(K_FUNO, a, a));
  if (a->k == K_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkFCmp(k, a->a[1], b), mkFCmp(k, a->a[2], b));
  if (b->k == K_ITE && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], mkFCmp(k, a, b->a[1]), mkFCmp(k, a, b->a[2]));
  // integer-valued vs integer-valued constant (exact while |int| < 2^53)
  auto iw0 = [](Ref x) { return ((x->k == K_S2F || x->k == K_U2F) && x->a[0]->w <= 53) || exactInt(x); };
  auto iw = [&](Ref x) { return iw0(x) || (x->k == K_FNEG && iw0(x->a[0])); };
  auto toI0 = [](Ref x) { return x->k == K_S2F ? mkSExt(x->a[0], 64) : mkZExt(x->a[0], 64); };
  auto toI = [&](Ref x) { return x->k == K_FNEG ? mkSub(mkC(64, 0), toI0(x->a[0])) : toI0(x); };
  if (a->sort == SF64 && (iw(a) || isC(a)) && (iw(b) || isC(b)) && k != K_FUNO) {
    auto conv = [&](Ref x, Ref &out) {
      if (iw(x)) { out = toI(x); return true; }
      double v = fval(x);
      if (std::isfinite(v) && v == std::floor(v) && std::fabs(v) < 9e15) { out = mkC(64, (u128)(i128)(int64_t)v); return true; }
      return false;
    };
    Ref x, y;
    auto frac = [](Ref c) { return isC(c) && std::isfinite(fval(c)) && std::fabs(fval(c)) < 4e15 && fval(c) != std::floor(fval(c)); };
    if (frac(a) && conv(b, y)) return k == K_FEQ ? mkFalse() : mkSlt(mkC(64, (u128)(i128)std::floor(fval(a))), y);
    if (frac(b) && conv(a, x)) return k == K_FEQ ? mkFalse() : mkSlt(x, mkC(64, (u128)(i128)std::ceil(fval(b))));
    if (conv(a, x) && conv(b, y)) return k == K_FEQ ? mkEq(x, y) : k == K_FLT ? mkSlt(x, y) : mkSle(x, y);
  }
  if (k != K_FUNO && isC(b)) if (Ref r = chainCmp(k, a, fval(b), true)) return r;
  if (k != K_FUNO && isC(a)) if (Ref r = chainCmp(k, b, fval(a), false)) return r;
  // comparisons of values given by their bits become bit-vector predicates
  auto bits = [](Ref x) { return x->k == K_B2F || isC(x); };
  if (!g_real && a->sort == SF64 && bits(a) && bits(b)) {
    Ref x = mkF2B(a), y = mkF2B(b), inf = mkC(64, 0x7ff0000000000000ull), mag = mkC(64, 0x7fffffffffffffffull), z = mkC(64, 0), one = mkC(64, 0x8000000000000000ull);
    auto nan = [&](Ref v) { return mkUlt(inf, mkAnd(v, mag)); };
    if (k == K_FUNO) return mkOr(nan(x), nan(y));
    Ref ok = mkAnd(mkNot(nan(x)), mkNot(nan(y)));
    Ref eq = mkOr(mkEq(x, y), mkEq(mkAnd(mkOr(x, y), mag), z));
    if (k == K_FEQ) return mkAnd(ok, eq);
    // order-preserving map to signed integers
    auto key = [&](Ref v) { return mkIte(mkSlt(v, z), mkSub(one, v), v); };
    Ref lt = mkSlt(key(x), key(y));
    return k == K_FLT ? mkAnd(ok, lt) : mkAnd(ok, mkOr(lt, mkEq(key(x), key(y))));
  }
  if (k == K_FEQ && a->id > b->id) std::swap(a, b);
  return cons(k, SBV, 1, 0, 0, a, b);
}
Ref mkS2F(Ref a, Sort s) {
  if (isC(a)) return mkFCs(s, (double)sgn(a->c, a->w));
  if (!g_real && a->w > 1 && nonneg(a)) return mkU2F(a, s);
  if (a->k == K_ZEXT) return mkU2F(a->a[0], s);
  if (a->k == K_SEXT) return mkS2F(a->a[0], s);
  if (constIte(a)) return mkIte(a->a[0], mkS2F(a->a[1], s), mkS2F(a->a[2], s));
  return cons(K_S2F, s, s == SF32 ? 32 : 64, 0, 0, a);
}
Ref mkU2F(Ref a, Sort s) {
  if (isC(a)) return mkFCs(s, (double)a->c);
  if (a->k == K_ZEXT) return mkU2F(a->a[0], s);
  if (constIte(a)) return mkIte(a->a[0], mkU2F(a->a[1], s), mkU2F(a->a[2], s));
  return cons(K_U2F, s, s == SF32 ? 32 : 64, 0, 0, a);
}
Ref mkF2S(Ref a, unsigned w) {
  if (isC(a)) return mkC(w, (u128)(i128)fval(a));
  if ((a->k == K_S2F || a->k == K_U2F) && a->a[0]->w < 53 && a->a[0]->w < w)
    return a->k == K_S2F ? mkSExt(a->a[0], w) : mkZExt(a->a[0], w);
  if (a->k == K_S2F && a->a[0]->w == w && w < 53) return a->a[0];
  if (!g_real && exactInt(a) && a->a[0]->ub < ((u128)1 << (w - 1))) { Ref x = a->a[0]; return x->w > w ? mkExtract(x, 0, w) : mkZExt(x, w); }
  if (!g_real && a->k == K_FNEG && exactInt(a->a[0]) && a->a[0]->a[0]->ub < ((u128)1 << (w - 1))) { Ref x = a->a[0]->a[0]; return mkSub(mkC(w, 0), x->w > w ? mkExtract(x, 0, w) : mkZExt(x, w)); }
  return cons(K_F2S, SBV, w, 0, 0, a);
}
Ref mkF2U(Ref a, unsigned w) {
  if (isC(a)) return mkC(w, (u128)fval(a));
  if (a->k == K_U2F && a->a[0]->w < 53 && a->a[0]->w <= w) return mkZExt(a->a[0], w);
  return cons(K_F2U, SBV, w, 0, 0, a);
}
Ref mkFCvt(Ref a, Sort s) {
  if (a->sort == s) return a;
  if (isC(a)) return mkFCs(s, fval(a));
  return cons(K_FCVT, s, s == SF32 ? 32 : 64, 0, 0, a);
}
static double rnd(double v, int m) {
  switch (m) { case 0: return std::trunc(v); case 1: return std::floor(v); case 2: return std::ceil(v); case 3: return std::round(v); default: return std::nearbyint(v); }
}
Ref mkFRnd(Ref a, int mode) {
  if (isC(a)) return mkFCs((Sort)a->sort, rnd(fval(a), mode));
  if (a->k == K_S2F || a->k == K_U2F) return a;
  return cons(K_FRND, (Sort)a->sort, a->w, 0, mode, a);
}
double ufEval(uint32_t f, double a, double b, double c) {
  const std::string &n = g_ufs[f];
  if (n == "sin") return std::sin(a);
  if (n == "cos") return std::cos(a);
  if (n == "tan") return std::tan(a);
  if (n == "atan") return std::atan(a);
  if (n == "asin") return std::asin(a);
  if (n == "acos") return std::acos(a);
  if (n == "exp") return std::exp(a);
  if (n == "log") return std::log(a);
  if (n == "log10") return std::log10(a);
  if (n == "atan2") return std::atan2(a, b);
  if (n == "pow") return std::pow(a, b);
  if (n == "fmod") return std::fmod(a, b);
  if (n == "hypot") return std::hypot(a, b);
  if (n == "cbrt") return std::cbrt(a);
  if (n == "dec10") { // a * 10^b, correctly rounded through decimal text
    char buf[64]; snprintf(buf, sizeof buf, "%.0fe%d", a, (int)b); return strtod(buf, nullptr); }
  return 0;
}
Ref mkUF(uint32_t f, Ref a, Ref b, Ref c) {
  if (isC(a) && (!b || isC(b)) && (!c || isC(c)) && a->sort == SF64) {
    double r = ufEval(f, fval(a), b ? fval(b) : 0, c ? fval(c) : 0);
    if (!g_real || (g_fold && std::isfinite(r))) return mkFC(r);
    // exact special values only
    const std::string &n = g_ufs[f];
    if (fval(a) == 0 && (n == "sin" || n == "cos" || n == "tan" || n == "atan")) return mkFC(r);
  }
  // odd/even symmetries keep equivalent rewrites structurally equal
  const std::string &n = g_ufs[f];
  if (a->k == K_FNEG) {
    if (n == "cos") return mkUF(f, a->a[0]);
    if (n == "sin" || n == "tan" || n == "atan") return mkFUn(K_FNEG, mkUF(f, a->a[0]));
  }
  return cons(K_UF, (Sort)a->sort, a->w, 0, f, a, b, c);
}

// ---- support --------------------------------------------------------------
static std::unordered_map<uint32_t, std::vector<uint32_t>> g_sup;
const std::vector<uint32_t> &support(Ref r) {
  static const std::vector<uint32_t> empty;
  if (isC(r)) return empty;
  auto it = g_sup.find(r->id);
  if (it != g_sup.end()) return it->second;
  // iterative post-order
  std::vector<std::pair<Ref, int>> st{{r, 0}};
  while (!st.empty()) {
    auto &[x, i] = st.back();
    if (i < x->n) {
      Ref c = x->a[i++];
      if (!isC(c) && !g_sup.count(c->id)) st.push_back({c, 0});
      continue;
    }
    if (!g_sup.count(x->id)) {
      std::vector<uint32_t> s;
      if (x->k == K_SYM) s.push_back(x->aux);
      for (int j = 0; j < x->n; j++) {
        if (isC(x->a[j])) continue;
        auto &o = g_sup[x->a[j]->id];
        std::vector<uint32_t> t;
        t.reserve(s.size() + o.size());
        std::set_union(s.begin(), s.end(), o.begin(), o.end(), std::back_inserter(t));
        s.swap(t);
      }
      g_sup[x->id] = std::move(s);
    }
    st.pop_back();
  }
  return g_sup[r->id];
}

// ---- evaluation -----------------------------------------------------------
static double dv(u128 b, Sort s) {
  if (s == SF32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
  uint64_t x = (uint64_t)b; double d; memcpy(&d, &x, 8); return d;
}
static u128 db(double v, Sort s) {
  if (s == SF32) { float f = (float)v; uint32_t x; memcpy(&x, &f, 4); return x; }
  uint64_t x; memcpy(&x, &v, 8); return x;
}
u128 Evaluator::eval(Ref r) {
  if (isC(r)) return r->c;
  if (r->k == K_SYM) return (r->aux < m.size() ? (u128)m[r->aux] : 0) & maskw(r->w);
  auto it = memo.find(r->id);
  if (it != memo.end()) return it->second;
  std::vector<std::pair<Ref, int>> st{{r, 0}};
  auto get = [&](Ref x) -> u128 {
    if (isC(x)) return x->c;
    if (x->k == K_SYM) return (x->aux < m.size() ? (u128)m[x->aux] : 0) & maskw(x->w);
    return memo[x->id];
  };
  while (!st.empty()) {
    Ref x = st.back().first;
    int &i = st.back().second;
    if (i < x->n) {
      Ref c = x->a[i++];
      if (!isC(c) && c->k != K_SYM && !memo.count(c->id)) st.push_back({c, 0});
      continue;
    }
    st.pop_back();
    if (memo.count(x->id)) continue;
    unsigned w = x->w;
    u128 A = x->n > 0 ? get(x->a[0]) : 0, B = x->n > 1 ? get(x->a[1]) : 0, C = x->n > 2 ? get(x->a[2]) : 0;
    unsigned aw = x->n ? x->a[0]->w : 0;
    u128 v = 0;
    Sort s = (Sort)x->sort, as = x->n ? (Sort)x->a[0]->sort : SBV;
    switch ((Kind)x->k) {
    case K_ADD: v = A + B; break;
    case K_MUL: v = A * B; break;
    case K_UDIV: v = B ? A / B : maskw(w); break;
    case K_UREM: v = B ? A % B : A; break;
    case K_SDIV: { i128 a = sgn(A, w), b = sgn(B, w); v = b == 0 ? (a < 0 ? 1 : maskw(w)) : (b == -1 ? (u128)-a : (u128)(a / b)); break; }
    case K_SREM: { i128 a = sgn(A, w), b = sgn(B, w); v = b == 0 ? A : (b == -1 ? 0 : (u128)(a % b)); break; }
    case K_AND: v = A & B; break;
    case K_OR: v = A | B; break;
    case K_XOR: v = A ^ B; break;
    case K_SHL: v = B >= w ? 0 : A << (unsigned)B; break;
    case K_LSHR: v = B >= w ? 0 : A >> (unsigned)B; break;
    case K_ASHR: v = (u128)(sgn(A, w) >> (unsigned)(B >= w ? w - 1 : B)); break;
    case K_EQ: v = A == B; break;
    case K_ULT: v = A < B; break;
    case K_SLT: v = sgn(A, aw) < sgn(B, aw); break;
    case K_ITE: v = A ? B : C; break;
    case K_ZEXT: v = A; break;
    case K_SEXT: v = (u128)sgn(A, aw); break;
    case K_EXTRACT: v = A >> x->aux; break;
    case K_CONCAT: v = (A << x->a[1]->w) | B; break;
    case K_B2F: case K_F2B: v = A; break;
    case K_FADD: v = db(dv(A, as) + dv(B, as), s); break;
    case K_FSUB: v = db(dv(A, as) - dv(B, as), s); break;
    case K_FMUL: v = db(dv(A, as) * dv(B, as), s); break;
    case K_FDIV: v = db(dv(A, as) / dv(B, as), s); break;
    case K_FREM: v = db(fmod(dv(A, as), dv(B, as)), s); break;
    case K_FNEG: v = A ^ ((u128)1 << (w - 1)); break;
    case K_FABS: v = A & ~((u128)1 << (w - 1)); break;
    case K_FSQRT: v = db(std::sqrt(dv(A, as)), s); break;
    case K_FMA: v = db(std::fma(dv(A, as), dv(B, as), dv(C, as)), s); break;
    case K_FEQ: v = dv(A, as) == dv(B, as); break;
    case K_FLT: v = dv(A, as) < dv(B, as); break;
    case K_FLE: v = dv(A, as) <= dv(B, as); break;
    case K_FUNO: v = std::isnan(dv(A, as)) || std::isnan(dv(B, as)); break;
    case K_S2F: v = s == SF32 ? db((float)(int64_t)sgn(A, aw), s) : db((double)sgn(A, aw), s); break;
    case K_U2F: v = db((double)A, s); break;
    case K_F2S: { double d = dv(A, as); v = std::isfinite(d) && std::fabs(d) < 1e38 ? (u128)(i128)d : 0; break; }
    case K_F2U: { double d = dv(A, as); v = std::isfinite(d) && d >= 0 && d < 1e38 ? (u128)d : 0; break; }
    case K_FCVT: v = db(dv(A, as), s); break;
    case K_FRND: v = db(rnd(dv(A, as), x->aux), s); break;
    case K_UF: v = db(ufEval(x->aux, dv(A, as), dv(B, as), dv(C, as)), s); break;
    default: break;
    }
    memo[x->id] = v & maskw(w);
  }
  return memo[r->id];
}

std::string show(Ref r, int d) {
  static const char *nm[] = {"const", "sym", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "zext", "sext", "extract", "concat", "b2f", "f2b", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fabs", "fsqrt", "fma", "feq", "flt", "fle", "funo", "s2f", "u2f", "f2s", "f2u", "fcvt", "frnd", "uf"};
  if (isC(r)) {
    char b[64];
    if (r->sort != SBV) snprintf(b, sizeof b, "%.17g", fval(r));
    else snprintf(b, sizeof b, "%lld:%u", (long long)(int64_t)sgn(r->c, r->w), r->w);
    return b;
  }
  if (r->k == K_SYM) return g_symNames[r->aux];
  if (d == 0) return "...";
  std::string s = "(" + std::string(nm[r->k]);
  if (r->k == K_EXTRACT) s += "@" + std::to_string(r->aux) + ":" + std::to_string(r->w);
  if (r->k == K_UF) s += ":" + g_ufs[r->aux];
  for (int i = 0; i < r->n; i++) s += " " + show(r->a[i], d - 1);
  return s + ")";
}

static Ref rebuild(Ref x, Ref a, Ref b, Ref c) {
  switch ((Kind)x->k) {
  case K_ADD: return mkAdd(a, b);
  case K_MUL: return mkMul(a, b);
  case K_UDIV: return mkUDiv(a, b);
  case K_SDIV: return mkSDiv(a, b);
  case K_UREM: return mkURem(a, b);
  case K_SREM: return mkSRem(a, b);
  case K_AND: return mkAnd(a, b);
  case K_OR: return mkOr(a, b);
  case K_XOR: return mkXor(a, b);
  case K_SHL: return mkShl(a, b);
  case K_LSHR: return mkLShr(a, b);
  case K_ASHR: return mkAShr(a, b);
  case K_EQ: return mkEq(a, b);
  case K_ULT: return mkUlt(a, b);
  case K_SLT: return mkSlt(a, b);
  case K_ITE: return mkIte(a, b, c);
  case K_ZEXT: return mkZExt(a, x->w);
  case K_SEXT: return mkSExt(a, x->w);
  case K_EXTRACT: return mkExtract(a, x->aux, x->w);
  case K_CONCAT: return mkConcat(a, b);
  case K_B2F: return mkB2F(a, (Sort)x->sort);
  case K_F2B: return mkF2B(a);
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: return mkFBin((Kind)x->k, a, b);
  case K_FNEG: case K_FABS: case K_FSQRT: return mkFUn((Kind)x->k, a);
  case K_FMA: return mkFMA(a, b, c);
  case K_FEQ: case K_FLT: case K_FLE: case K_FUNO: return mkFCmp((Kind)x->k, a, b);
  case K_S2F: return mkS2F(a, (Sort)x->sort);
  case K_U2F: return mkU2F(a, (Sort)x->sort);
  case K_F2S: return mkF2S(a, x->w);
  case K_F2U: return mkF2U(a, x->w);
  case K_FCVT: return mkFCvt(a, (Sort)x->sort);
  case K_FRND: return mkFRnd(a, x->aux);
  case K_UF: return mkUF(x->aux, a, b, c);
  default: return x;
  }
}
Ref substitute(Ref r, const std::map<uint32_t, u128> &pin, std::unordered_map<uint32_t, Ref> &memo) {
  auto leaf = [&](Ref x) -> Ref {
    if (isC(x)) return x;
    if (x->k != K_SYM) return nullptr;
    auto it = pin.find(x->aux);
    return it == pin.end() ? x : mkC(x->w, it->second & maskw(x->w));
  };
  if (Ref l = leaf(r)) return l;
  std::vector<std::pair<Ref, int>> st{{r, 0}};
  while (!st.empty()) {
    Ref x = st.back().first;
    int &i = st.back().second;
    if (i < x->n) { Ref c = x->a[i++]; if (!leaf(c) && !memo.count(c->id)) st.push_back({c, 0}); continue; }
    st.pop_back();
    if (memo.count(x->id)) continue;
    Ref k[3] = {nullptr, nullptr, nullptr};
    for (int j = 0; j < x->n; j++) { Ref l = leaf(x->a[j]); k[j] = l ? l : memo[x->a[j]->id]; }
    memo[x->id] = rebuild(x, k[0], k[1], k[2]);
  }
  return memo[r->id];
}
