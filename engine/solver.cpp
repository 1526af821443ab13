#include "solver.hpp"
#include <algorithm>
#include <bitset>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <stdexcept>

SolverStats g_ss;
static bool g_nolia = getenv("GSX_NOLIA") != nullptr, g_liacheck = getenv("GSX_LIACHECK") != nullptr;

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e));
}
Solver::Solver() {
  Z3_global_param_set("smt.arith.nl.grobner", "false"); // does not observe the time limit
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  inc = nullptr;
}
static Z3_ast keep(Z3_context c, Z3_ast a) { Z3_inc_ref(c, a); return a; }
static Z3_sort bvs(Z3_context c, unsigned w) { return Z3_mk_bv_sort(c, w); }

Z3_ast Solver::trBool(Ref r) { // 1-bit node as Bool
  // handle boolean structure natively
  Z3_ast a;
  if (isC(r)) return r->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  a = tr(r);
  return a;
}
static bool isBoolNode(Ref r) { return r->w == 1 && r->sort == SBV; }

// 1-bit BV nodes are translated to Bool sort throughout; conversions where
// a 1-bit value is used as a bit-vector operand.
static Z3_ast b2bv(Z3_context c, Z3_ast b) {
  static Z3_ast one = keep(c, Z3_mk_unsigned_int64(c, 1, bvs(c, 1))), zero = keep(c, Z3_mk_unsigned_int64(c, 0, bvs(c, 1)));
  return Z3_mk_ite(c, b, one, zero);
}
static Z3_ast bv2b(Z3_context c, Z3_ast v) {
  static Z3_ast one = keep(c, Z3_mk_unsigned_int64(c, 1, bvs(c, 1)));
  return Z3_mk_eq(c, v, one);
}
static Z3_ast numBV(Z3_context c, u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)v, bvs(c, w));
  Z3_ast hi = keep(c, Z3_mk_unsigned_int64(c, (uint64_t)(v >> 64), bvs(c, w - 64)));
  Z3_ast lo = keep(c, Z3_mk_unsigned_int64(c, (uint64_t)v, bvs(c, 64)));
  return Z3_mk_concat(c, hi, lo);
}
static std::string ratOf(double v) { // exact decimal rational
  int e; double m = std::frexp(v, &e);
  int64_t k = (int64_t)std::ldexp(m, 53); e -= 53;
  // value = k * 2^e
  std::string s = std::to_string(k);
  return s + "|" + std::to_string(e);
}
static Z3_ast realConst(Z3_context c, double v) {
  Z3_sort R = Z3_mk_real_sort(c);
  if (!std::isfinite(v)) { return Z3_mk_fresh_const(c, "nonfinite", R); }
  if (v == 0) return Z3_mk_real(c, 0, 1);
  int e; double m = std::frexp(v, &e);
  int64_t k = (int64_t)std::ldexp(m, 53); e -= 53;
  while (k % 2 == 0) { k /= 2; e++; }
  std::string num = std::to_string(k);
  // 2^|e| as decimal string
  std::string p = "1";
  for (int i = 0; i < std::abs(e); i++) {
    int carry = 0;
    for (int j = (int)p.size() - 1; j >= 0; j--) { int d = (p[j] - '0') * 2 + carry; p[j] = '0' + d % 10; carry = d / 10; }
    if (carry) p.insert(p.begin(), '0' + carry);
  }
  (void)ratOf;
  std::string txt;
  if (e >= 0) {
    Z3_ast a = keep(c, Z3_mk_numeral(c, num.c_str(), R)), b = keep(c, Z3_mk_numeral(c, p.c_str(), R));
    Z3_ast args[2] = {a, b};
    Z3_ast r = Z3_mk_mul(c, 2, args);
    return Z3_simplify(c, r);
  }
  txt = num + "/" + p;
  return Z3_mk_numeral(c, txt.c_str(), R);
}

Z3_ast Solver::tr(Ref root) {
  auto have = [&](Ref r) { return r->id < cache.size() && cache[r->id]; };
  if (have(root)) return cache[root->id];
  std::vector<std::pair<Ref, int>> st{{root, 0}};
  Z3_context c = ctx;
  while (!st.empty()) {
    Ref x = st.back().first;
    int &i = st.back().second;
    if (i < x->n) {
      Ref ch = x->a[i++];
      if (!have(ch)) st.push_back({ch, 0});
      continue;
    }
    st.pop_back();
    if (have(x)) continue;
    if (cache.size() <= x->id) cache.resize(std::max<size_t>(allNodes().size(), x->id + 1), nullptr);
    Z3_ast A = x->n > 0 ? cache[x->a[0]->id] : nullptr, B = x->n > 1 ? cache[x->a[1]->id] : nullptr,
           C = x->n > 2 ? cache[x->a[2]->id] : nullptr;
    Z3_ast r = nullptr;
    unsigned w = x->w;
    bool real = g_real;
    Z3_sort RS = Z3_mk_real_sort(c);
    auto fps = [&](Sort s) { return s == SF32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); };
    auto rne = [&] { static Z3_ast m = keep(c, Z3_mk_fpa_rne(c)); return m; };
    auto bvarg = [&](int k) { // argument as bit-vector, even when 1-bit
      Ref a = x->a[k]; Z3_ast z = cache[a->id];
      return isBoolNode(a) ? keep(c, b2bv(c, z)) : z;
    };
    switch ((Kind)x->k) {
    case K_CONST:
      if (x->sort != SBV) {
        if (real) r = realConst(c, fval(x));
        else r = Z3_mk_fpa_to_fp_bv(c, keep(c, numBV(c, x->c, w)), fps((Sort)x->sort));
      } else if (w == 1) r = x->c ? Z3_mk_true(c) : Z3_mk_false(c);
      else r = numBV(c, x->c, w);
      break;
    case K_SYM: {
      std::string nm = "s" + std::to_string(x->aux);
      Z3_symbol s = Z3_mk_string_symbol(c, nm.c_str());
      r = Z3_mk_const(c, s, w == 1 ? Z3_mk_bool_sort(c) : bvs(c, w));
      break;
    }
    case K_ADD: r = Z3_mk_bvadd(c, A, B); break;
    case K_MUL: r = Z3_mk_bvmul(c, A, B); break;
    case K_UDIV: r = Z3_mk_bvudiv(c, A, B); break;
    case K_SDIV: r = Z3_mk_bvsdiv(c, A, B); break;
    case K_UREM: r = Z3_mk_bvurem(c, A, B); break;
    case K_SREM: r = Z3_mk_bvsrem(c, A, B); break;
    case K_AND: if (w == 1) { Z3_ast a[2] = {A, B}; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvand(c, A, B); break;
    case K_OR: if (w == 1) { Z3_ast a[2] = {A, B}; r = Z3_mk_or(c, 2, a); } else r = Z3_mk_bvor(c, A, B); break;
    case K_XOR:
      if (w == 1) { if (isC(x->a[1]) && x->a[1]->c) r = Z3_mk_not(c, A); else r = Z3_mk_xor(c, A, B); }
      else r = Z3_mk_bvxor(c, A, B);
      break;
    case K_SHL: r = Z3_mk_bvshl(c, A, B); break;
    case K_LSHR: r = Z3_mk_bvlshr(c, A, B); break;
    case K_ASHR: r = Z3_mk_bvashr(c, A, B); break;
    case K_EQ: r = Z3_mk_eq(c, A, B); break;
    case K_ULT: r = Z3_mk_bvult(c, bvarg(0), bvarg(1)); break;
    case K_SLT: r = Z3_mk_bvslt(c, bvarg(0), bvarg(1)); break;
    case K_ITE: r = Z3_mk_ite(c, A, B, C); break;
    case K_ZEXT: r = Z3_mk_zero_ext(c, w - x->a[0]->w, bvarg(0)); break;
    case K_SEXT: r = Z3_mk_sign_ext(c, w - x->a[0]->w, bvarg(0)); break;
    case K_EXTRACT: r = Z3_mk_extract(c, x->aux + w - 1, x->aux, A); if (w == 1) { keep(c, r); r = bv2b(c, r); } break;
    case K_CONCAT: r = Z3_mk_concat(c, bvarg(0), bvarg(1)); break;
    case K_B2F:
      if (real) { std::string nm = "r" + std::to_string(x->id); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), RS); }
      else r = Z3_mk_fpa_to_fp_bv(c, A, fps((Sort)x->sort));
      break;
    case K_F2B:
      if (real) { std::string nm = "fb" + std::to_string(x->id); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), bvs(c, w)); }
      else r = Z3_mk_fpa_to_ieee_bv(c, A);
      break;
    case K_FADD: if (real) { Z3_ast a[2] = {A, B}; r = Z3_mk_add(c, 2, a); } else r = Z3_mk_fpa_add(c, rne(), A, B); break;
    case K_FSUB: if (real) { Z3_ast a[2] = {A, B}; r = Z3_mk_sub(c, 2, a); } else r = Z3_mk_fpa_sub(c, rne(), A, B); break;
    case K_FMUL: if (real) { Z3_ast a[2] = {A, B}; r = Z3_mk_mul(c, 2, a); } else r = Z3_mk_fpa_mul(c, rne(), A, B); break;
    case K_FDIV: if (real) r = Z3_mk_div(c, A, B); else r = Z3_mk_fpa_div(c, rne(), A, B); break;
    case K_FREM: { std::string nm = "frem" + std::to_string(x->id); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), real ? RS : fps((Sort)x->sort)); break; }
    case K_FNEG: r = real ? Z3_mk_unary_minus(c, A) : Z3_mk_fpa_neg(c, A); break;
    case K_FABS: r = real ? Z3_mk_ite(c, keep(c, Z3_mk_lt(c, A, Z3_mk_real(c, 0, 1))), keep(c, Z3_mk_unary_minus(c, A)), A) : Z3_mk_fpa_abs(c, A); break;
    case K_FSQRT:
      if (real) {
        std::string nm = "sqrt" + std::to_string(x->id);
        r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), RS);
        keep(c, r);
        Z3_ast z = keep(c, Z3_mk_real(c, 0, 1));
        Z3_ast sq[2] = {r, r};
        Z3_ast m = keep(c, Z3_mk_mul(c, 2, sq));
        Z3_ast conj[2] = {keep(c, Z3_mk_ge(c, r, z)), keep(c, Z3_mk_eq(c, m, A))};
        Z3_ast imp = keep(c, Z3_mk_implies(c, keep(c, Z3_mk_ge(c, A, z)), keep(c, Z3_mk_and(c, 2, conj))));
        side[x->id].push_back(imp);
      } else r = Z3_mk_fpa_sqrt(c, rne(), A);
      break;
    case K_FMA: r = Z3_mk_fpa_fma(c, rne(), A, B, C); break;
    case K_FEQ: r = real ? Z3_mk_eq(c, A, B) : Z3_mk_fpa_eq(c, A, B); break;
    case K_FLT: r = real ? Z3_mk_lt(c, A, B) : Z3_mk_fpa_lt(c, A, B); break;
    case K_FLE: r = real ? Z3_mk_le(c, A, B) : Z3_mk_fpa_leq(c, A, B); break;
    case K_FUNO: {
      if (real) { r = Z3_mk_false(c); break; }
      Z3_ast a[2] = {keep(c, Z3_mk_fpa_is_nan(c, A)), keep(c, Z3_mk_fpa_is_nan(c, B))};
      r = Z3_mk_or(c, 2, a); break;
    }
    case K_S2F: r = real ? Z3_mk_int2real(c, keep(c, Z3_mk_bv2int(c, bvarg(0), true))) : Z3_mk_fpa_to_fp_signed(c, rne(), bvarg(0), fps((Sort)x->sort)); break;
    case K_U2F: r = real ? Z3_mk_int2real(c, keep(c, Z3_mk_bv2int(c, bvarg(0), false))) : Z3_mk_fpa_to_fp_unsigned(c, rne(), bvarg(0), fps((Sort)x->sort)); break;
    case K_F2S: case K_F2U:
      if (real) {
        // truncation toward zero: real -> int -> bv
        Z3_ast z = keep(c, Z3_mk_real(c, 0, 1));
        Z3_ast fl = keep(c, Z3_mk_real2int(c, A));
        Z3_ast ng = keep(c, Z3_mk_unary_minus(c, A));
        Z3_ast nf = keep(c, Z3_mk_unary_minus(c, keep(c, Z3_mk_real2int(c, ng))));
        Z3_ast iv = keep(c, Z3_mk_ite(c, keep(c, Z3_mk_ge(c, A, z)), fl, nf));
        r = Z3_mk_int2bv(c, w, iv);
      } else r = x->k == K_F2S ? Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), A, w) : Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), A, w);
      if (w == 1) { keep(c, r); r = bv2b(c, r); }
      break;
    case K_FCVT: r = real ? A : Z3_mk_fpa_to_fp_float(c, rne(), A, fps((Sort)x->sort)); break;
    case K_FRND: {
      if (real) {
        Z3_ast z = keep(c, Z3_mk_real(c, 0, 1));
        Z3_ast fl = keep(c, Z3_mk_int2real(c, keep(c, Z3_mk_real2int(c, A))));
        Z3_ast cl = keep(c, Z3_mk_unary_minus(c, keep(c, Z3_mk_int2real(c, keep(c, Z3_mk_real2int(c, keep(c, Z3_mk_unary_minus(c, A))))))));
        if (x->aux == 1) r = fl;
        else if (x->aux == 2) r = cl;
        else if (x->aux == 0) r = Z3_mk_ite(c, keep(c, Z3_mk_ge(c, A, z)), fl, cl);
        else { std::string nm = "rnd" + std::to_string(x->id); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), RS); }
      } else {
        Z3_ast m = x->aux == 0 ? Z3_mk_fpa_rtz(c) : x->aux == 1 ? Z3_mk_fpa_rtn(c) : x->aux == 2 ? Z3_mk_fpa_rtp(c) : x->aux == 3 ? Z3_mk_fpa_rna(c) : Z3_mk_fpa_rne(c);
        r = Z3_mk_fpa_round_to_integral(c, m, A);
      }
      break;
    }
    case K_UF: { // one fresh value per structurally distinct application (over-approximation)
      std::string nm = "uf" + std::to_string(x->id);
      r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), real ? RS : fps((Sort)x->sort));
      keep(c, r);
      const std::string &f = g_ufs[x->aux];
      if (real && (f == "sin" || f == "cos")) {
        Z3_ast one = keep(c, Z3_mk_real(c, 1, 1)), mone = keep(c, Z3_mk_real(c, -1, 1));
        Z3_ast b[2] = {keep(c, Z3_mk_le(c, mone, r)), keep(c, Z3_mk_le(c, r, one))};
        side[x->id].push_back(keep(c, Z3_mk_and(c, 2, b)));
      }
      break;
    }
    default: throw std::runtime_error("untranslatable node");
    }
    keep(c, r);
    cache[x->id] = r;
  }
  return cache[root->id];
}

static bool g_hasF(Ref r) {
  static std::unordered_map<uint32_t, bool> memo;
  auto it = memo.find(r->id);
  if (it != memo.end()) return it->second;
  std::vector<std::pair<Ref, int>> st{{r, 0}};
  while (!st.empty()) {
    Ref x = st.back().first; int &i = st.back().second;
    if (i < x->n) { Ref ch = x->a[i++]; if (!memo.count(ch->id)) st.push_back({ch, 0}); continue; }
    st.pop_back();
    bool v = x->sort != SBV || x->k >= K_B2F;
    for (int j = 0; j < x->n; j++) v = v || memo[x->a[j]->id];
    memo[x->id] = v;
  }
  return memo[r->id];
}
// FP support: in real mode, B2F leaves act as variables; independence slicing
// over byte symbols remains valid because a B2F leaf's support is its bytes.

void Solver::sidesOf(Ref r, std::vector<Z3_ast> &out, std::vector<char> &seen) {
  std::vector<Ref> st{r};
  while (!st.empty()) {
    Ref x = st.back(); st.pop_back();
    if (x->id < seen.size() && seen[x->id]) continue;
    if (seen.size() <= x->id) seen.resize(allNodes().size(), 0);
    seen[x->id] = 1;
    auto it = side.find(x->id);
    if (it != side.end()) for (auto a : it->second) out.push_back(a);
    for (int j = 0; j < x->n; j++) st.push_back(x->a[j]);
  }
}
static void leaves(Ref r, std::vector<Ref> &b2f, std::vector<char> &seen) {
  std::vector<Ref> st{r};
  while (!st.empty()) {
    Ref x = st.back(); st.pop_back();
    if (x->id < seen.size() && seen[x->id]) continue;
    if (seen.size() <= x->id) seen.resize(allNodes().size(), 0);
    seen[x->id] = 1;
    if (x->k == K_B2F) { b2f.push_back(x); continue; }
    for (int j = 0; j < x->n; j++) st.push_back(x->a[j]);
  }
}
static void assignBits(Ref x, u128 v, std::map<uint32_t, uint64_t> &m) {
  switch (x->k) {
  case K_SYM: m[x->aux] = (uint64_t)(v & maskw(x->w)); break;
  case K_CONCAT: assignBits(x->a[1], v & maskw(x->a[1]->w), m); assignBits(x->a[0], v >> x->a[1]->w, m); break;
  case K_ZEXT: case K_SEXT: assignBits(x->a[0], v & maskw(x->a[0]->w), m); break;
  default: break;
  }
}

#include "lia.inc"

Res Solver::check(const std::vector<Ref> &pc, Ref cond, ModelP base, ModelP *out, unsigned timeout) {
  if (isC(cond)) {
    if (!cond->c) return UNSAT;
    if (out) *out = base;
    return SAT;
  }
  // independence slice
  std::vector<Ref> sel{cond};
  if (!g_real) {
    std::set<uint32_t> vars(support(cond).begin(), support(cond).end());
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (used[i]) continue;
        auto &s = support(pc[i]);
        bool hit = false;
        for (auto v : s) if (vars.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; vars.insert(s.begin(), s.end()); sel.push_back(pc[i]); }
      }
    }
  } else sel.insert(sel.end(), pc.begin(), pc.end());
  std::vector<uint32_t> key;
  for (auto r : sel) key.push_back(r->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  std::string ks((const char *)key.data(), key.size() * 4);
  auto it = qcache.find(ks);
  if (it == qcache.end() || it->second.first == UNKNOWN) {
    auto t0 = std::chrono::steady_clock::now();
    g_ss.queries++;
    bool hasF = false;
    if (!g_real) for (auto r : sel) hasF = hasF || g_hasF(r);
    std::vector<std::pair<uint32_t, uint64_t>> lasg;
    Res lres = UNKNOWN;
    if (!g_real && !hasF && !g_nolia) lres = lia(sel, lasg, timeout ? timeout : defTimeout);
    if (lres != UNKNOWN) {
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      g_ss.time += dt;
      if (getenv("GSX_SLOW") && dt > 1) fprintf(stderr, "[slow lia query %.1fs res=%d] %s\n", dt, lres, show(cond, 8).c_str());
      (lres == SAT ? g_ss.sat : g_ss.unsat)++;
      g_ss.lia++;
      it = qcache.insert_or_assign(ks, std::make_pair(lres, std::move(lasg))).first;
      goto done;
    }
    Z3_solver s;
    bool own = false;
    int attempt = 0;
    std::vector<Z3_ast> sd; std::vector<char> seen;
    Z3_lbool lb = Z3_L_UNDEF;
  again:
    if (attempt == 2) { Z3_tactic t = Z3_mk_tactic(ctx, g_real || hasF ? "default" : "qfbv"); Z3_tactic_inc_ref(ctx, t); s = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, s); own = true; }
    else if (g_real || hasF || attempt) { s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s); own = true; }
    else {
      if (!inc) { inc = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, inc); }
      s = inc;
    }
    Z3_params p; p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout ? timeout : defTimeout);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    if (!own) Z3_solver_push(ctx, s);
    sd.clear(); seen.clear();
    for (auto r : sel) { Z3_solver_assert(ctx, s, trBool(r)); if (g_real) sidesOf(r, sd, seen); }
    for (auto a : sd) Z3_solver_assert(ctx, s, a);
    try { lb = Z3_solver_check(ctx, s); }
    catch (std::exception &) { // internal error of the solver: another configuration
      if (own) Z3_solver_dec_ref(ctx, s); else { Z3_solver_dec_ref(ctx, inc); inc = nullptr; }
      if (++attempt > 2) throw;
      goto again;
    }
    Res res = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
    std::vector<std::pair<uint32_t, uint64_t>> asg;
    if (res == SAT) {
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      std::set<uint32_t> vars;
      for (auto r : sel) { auto &su = support(r); vars.insert(su.begin(), su.end()); }
      std::map<uint32_t, uint64_t> am;
      static std::unordered_map<uint32_t, Ref> symNode;
      for (auto r : sel) {
        std::vector<Ref> st{r}; static std::vector<uint32_t> mark; static uint32_t ep = 0; ep++;
        while (!st.empty()) {
          Ref x = st.back(); st.pop_back();
          if (mark.size() <= x->id) mark.resize(allNodes().size(), 0);
          if (mark[x->id] == ep) continue;
          mark[x->id] = ep;
          if (x->k == K_SYM) symNode[x->aux] = x;
          for (int j = 0; j < x->n; j++) if (!isC(x->a[j])) st.push_back(x->a[j]);
        }
      }
      for (auto v : vars) {
        Ref sn = symNode[v];
        Z3_ast val = nullptr;
        uint64_t u = 0;
        if (Z3_model_eval(ctx, m, tr(sn), true, &val)) {
          if (sn->w == 1) u = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
          else Z3_get_numeral_uint64(ctx, val, &u);
        }
        am[v] = u;
      }
      if (g_real) {
        std::vector<Ref> bl; std::vector<char> sn2;
        for (auto r : sel) leaves(r, bl, sn2);
        for (auto b : bl) {
          Z3_ast val = nullptr;
          if (!Z3_model_eval(ctx, m, tr(b), true, &val)) continue;
          double d = 0;
          if (Z3_get_ast_kind(ctx, val) == Z3_NUMERAL_AST) d = Z3_get_numeral_double(ctx, val);
          else if (Z3_is_algebraic_number(ctx, val)) d = atof(Z3_get_numeral_decimal_string(ctx, val, 20));
          uint64_t bits; memcpy(&bits, &d, 8);
          assignBits(b->a[0], bits, am);
        }
      }
      for (auto &kv : am) asg.push_back(kv);
      Z3_model_dec_ref(ctx, m);
    }
    if (!own) Z3_solver_pop(ctx, s, 1);
    else Z3_solver_dec_ref(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt;
    if (getenv("GSX_SLOW") && dt > 1) fprintf(stderr, "[slow query %.1fs res=%d] %s\n", dt, res, show(cond, 8).c_str());
    (res == SAT ? g_ss.sat : res == UNSAT ? g_ss.unsat : g_ss.unknown)++;
    // periodically recycle the incremental solver to bound its memory
    static int cnt = 0;
    if (!own && ++cnt % 4000 == 0) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; }
    it = qcache.insert_or_assign(ks, std::make_pair(res, std::move(asg))).first;
  } else g_ss.cacheHits++;
done:
  if (it->second.first == SAT && out) {
    auto m = std::make_shared<Model>(base ? *base : Model());
    for (auto &kv : it->second.second) {
      if (m->size() <= kv.first) m->resize(kv.first + 1, 0);
      (*m)[kv.first] = kv.second;
    }
    *out = m;
  }
  return it->second.first;
}
