// Hash-consed expression DAG with local simplification.
#pragma once
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Sort : uint8_t { SBV, SF32, SF64 };
enum Kind : uint8_t {
  K_CONST, K_SYM,
  K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_ITE, K_ZEXT, K_SEXT,
  K_EXTRACT, K_CONCAT,
  K_B2F, K_F2B, K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FNEG, K_FABS,
  K_FSQRT, K_FMA, K_FEQ, K_FLT, K_FLE, K_FUNO, K_S2F, K_U2F, K_F2S, K_F2U,
  K_FCVT, K_FRND, K_UF
};

struct Node {
  uint8_t k, sort, n;
  uint16_t w;   // bit width (for FP: 32/64)
  uint32_t id;
  uint32_t aux; // extract low bit, sym index, UF index, rounding mode
  u128 c;
  const Node *a[3];
  size_t h;
  u128 ub;      // unsigned upper bound (bit-vectors)
};
typedef const Node *Ref;

extern bool g_fold; // with g_real: constant expressions are rounded to double
extern bool g_real; // real-arithmetic mode
std::vector<Ref> &allNodes();
extern std::vector<std::string> g_ufs;
extern std::vector<std::string> g_symNames;
uint32_t ufIndex(const std::string &n);

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sgn(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  if (v >> (w - 1) & 1) return (i128)(v | ~maskw(w));
  return (i128)v;
}
inline bool isC(Ref a) { return a->k == K_CONST; }

Ref mkC(unsigned w, u128 v);
Ref mkFC(double v);
Ref mkFCbits(Sort s, uint64_t bits);
double fval(Ref c);
Ref mkSym(unsigned w, const std::string &name);
Ref mkTrue();
Ref mkFalse();
Ref mkAdd(Ref, Ref);
Ref mkSub(Ref, Ref);
Ref mkMul(Ref, Ref);
Ref mkUDiv(Ref, Ref);
Ref mkSDiv(Ref, Ref);
Ref mkURem(Ref, Ref);
Ref mkSRem(Ref, Ref);
Ref mkAnd(Ref, Ref);
Ref mkOr(Ref, Ref);
Ref mkXor(Ref, Ref);
Ref mkNot(Ref); // 1-bit
Ref mkShl(Ref, Ref);
Ref mkLShr(Ref, Ref);
Ref mkAShr(Ref, Ref);
Ref mkEq(Ref, Ref);
Ref mkUlt(Ref, Ref);
Ref mkUle(Ref, Ref);
Ref mkSlt(Ref, Ref);
Ref mkSle(Ref, Ref);
Ref mkIte(Ref, Ref, Ref);
Ref mkZExt(Ref, unsigned w);
Ref mkSExt(Ref, unsigned w);
Ref mkExtract(Ref, unsigned lo, unsigned w);
Ref mkConcat(Ref hi, Ref lo);
Ref mkB2F(Ref, Sort);
Ref mkF2B(Ref);
Ref mkFBin(Kind, Ref, Ref);
Ref mkFUn(Kind, Ref);
Ref mkFMA(Ref, Ref, Ref);
Ref mkFCmp(Kind, Ref, Ref);
Ref mkS2F(Ref, Sort);
Ref mkU2F(Ref, Sort);
Ref mkF2S(Ref, unsigned w);
Ref mkF2U(Ref, unsigned w);
Ref mkFCvt(Ref, Sort);
Ref mkFRnd(Ref, int mode); // 0 trunc 1 floor 2 ceil 3 round(away) 4 rint(even)
Ref mkUF(uint32_t f, Ref a, Ref b = nullptr, Ref c = nullptr);
double ufEval(uint32_t f, double a, double b, double c);

const std::vector<uint32_t> &support(Ref);
std::string show(Ref, int depth = 6);

struct Evaluator {
  const std::vector<uint64_t> &m;
  std::unordered_map<uint32_t, u128> memo;
  explicit Evaluator(const std::vector<uint64_t> &mm) : m(mm) {}
  u128 eval(Ref);
};
// rebuild with some symbols replaced by constants
Ref substitute(Ref, const std::map<uint32_t, u128> &, std::unordered_map<uint32_t, Ref> &memo);
