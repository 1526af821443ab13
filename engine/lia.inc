// Integer back end: a query over fixed-width arithmetic whose terms are linear
// is translated to linear integer arithmetic, with value ranges deciding where
// a wrap-around is possible (and a bounded quotient added where it is). A
// query with any other operation is left to the bit-vector solver; a model is
// accepted only when every conjunct evaluates to true under it.
namespace {
struct LiaFail {};
Res liaOff(const char *why) { if (getenv("GSX_SLOW")) fprintf(stderr, "[lia off: %s]\n", why); return UNKNOWN; }
struct LTerm { Z3_ast t; i128 lo, hi; bool k; };
typedef std::bitset<256> Bits;
// values of the one byte symbol that satisfy a constraint over it alone
const Bits &byteSet(Ref r, uint32_t sym) {
  static std::unordered_map<uint32_t, Bits> memo;
  auto it = memo.find(r->id);
  if (it != memo.end()) return it->second;
  Bits b;
  std::vector<uint64_t> m(sym + 1, 0);
  for (int v = 0; v < 256; v++) { m[sym] = v; Evaluator e(m); if (e.eval(r) & 1) b.set(v); }
  return memo.emplace(r->id, b).first->second;
}
struct Lia {
  Z3_context c;
  std::vector<Z3_ast> side;
  std::vector<Z3_ast> held;
  std::unordered_map<uint32_t, LTerm> tm;
  std::unordered_map<uint32_t, Z3_ast> bm;
  std::map<uint32_t, std::pair<i128, i128>> symRange; // by symbol index
  std::map<uint32_t, Z3_ast> symAst;
  std::map<uint32_t, Ref> symRef;
  std::map<uint32_t, std::pair<Ref, std::pair<i128, i128>>> whole; // concat of symbols used only as one number: node id
  std::map<uint32_t, Z3_ast> wholeAst;
  int fresh = 0, wide = 0;
  Z3_sort I, B;
  Lia(Z3_context x) : c(x) { I = Z3_mk_int_sort(c); B = Z3_mk_bool_sort(c); }
  ~Lia() { for (auto a : held) Z3_dec_ref(c, a); }
  Z3_ast k(Z3_ast a) { Z3_inc_ref(c, a); held.push_back(a); return a; }
  Z3_ast num(i128 v) {
    bool n = v < 0; u128 u = n ? -(u128)v : (u128)v;
    std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u);
    return k(Z3_mk_numeral(c, ((n ? "-" : "") + s).c_str(), I));
  }
  Z3_ast var(const std::string &n, Z3_sort s) { return k(Z3_mk_const(c, k0(n), s)); }
  Z3_symbol k0(const std::string &n) { return Z3_mk_string_symbol(c, n.c_str()); }
  void range(Z3_ast v, i128 lo, i128 hi) { side.push_back(k(Z3_mk_ge(c, v, num(lo)))); side.push_back(k(Z3_mk_le(c, v, num(hi)))); }
  LTerm mk(Z3_ast t, i128 lo, i128 hi) {
    const i128 L = (i128)1 << 90;
    if (lo < -L || hi > L) throw LiaFail();
    return {t, lo, hi, lo == hi};
  }
  LTerm cst(i128 v) { return mk(num(v), v, v); }
  LTerm add(LTerm a, LTerm b) {
    if (a.k && a.lo == 0) return b;
    if (b.k && b.lo == 0) return a;
    Z3_ast x[2] = {a.t, b.t};
    return mk(k(Z3_mk_add(c, 2, x)), a.lo + b.lo, a.hi + b.hi);
  }
  LTerm scale(LTerm a, i128 f) {
    if (f == 0) return cst(0);
    if (f == 1) return a;
    const i128 L = (i128)1 << 62;
    if (a.lo < -L || a.hi > L || f > L || f < -L) throw LiaFail();
    Z3_ast x[2] = {num(f), a.t};
    i128 p = a.lo * f, q = a.hi * f;
    return mk(k(Z3_mk_mul(c, 2, x)), std::min(p, q), std::max(p, q));
  }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
  // the value congruent modulo 2^w that lies in [lo, lo+2^w)
  LTerm fit(LTerm a, unsigned w, i128 lo) {
    if (w > 80) throw LiaFail();
    i128 M = (i128)1 << w;
    i128 q0 = fdiv(a.lo - lo, M), q1 = fdiv(a.hi - lo, M);
    if (q0 == q1) return q0 == 0 ? a : add(a, cst(-q0 * M));
    if (q1 - q0 > 64) throw LiaFail();
    Z3_ast q = var("q" + std::to_string(fresh++), I);
    range(q, q0, q1);
    Z3_ast x[2] = {num(-M), q};
    Z3_ast y[2] = {a.t, k(Z3_mk_mul(c, 2, x))};
    Z3_ast t = k(Z3_mk_add(c, 2, y));
    range(t, lo, lo + M - 1);
    return mk(t, lo, lo + M - 1);
  }
  LTerm U(Ref r) { return fit(T(r), r->w, 0); }
  LTerm S(Ref r) { return fit(T(r), r->w, -((i128)1 << (r->w - 1))); }
  // floor division by a positive constant
  std::pair<LTerm, LTerm> qr(LTerm a, i128 d) {
    i128 l = fdiv(a.lo, d), h = fdiv(a.hi, d);
    if (l == h) return {cst(l), add(a, cst(-l * d))};
    Z3_ast q = var("q" + std::to_string(fresh++), I);
    range(q, l, h);
    Z3_ast x[2] = {num(-d), q};
    Z3_ast y[2] = {a.t, k(Z3_mk_mul(c, 2, x))};
    Z3_ast t = k(Z3_mk_add(c, 2, y));
    range(t, 0, d - 1);
    return {mk(q, l, h), mk(t, 0, d - 1)};
  }
  // a number congruent to the term modulo 2^w
  LTerm T(Ref r) {
    auto it = tm.find(r->id);
    if (it != tm.end()) return it->second;
    LTerm v;
    try { v = T0(r); } catch (LiaFail &) { if (getenv("GSX_LIA")) fprintf(stderr, "[lia term %s]\n", show(r, 6).c_str()); throw; }
    tm.emplace(r->id, v);
    return v;
  }
  LTerm T0(Ref r) {
    if (r->w == 1) {
      Z3_ast b = Bo(r);
      return mk(k(Z3_mk_ite(c, b, num(1), num(0))), 0, 1);
    }
    switch (r->k) {
    case K_CONST: return cst(sgn(r->c, r->w));
    case K_SYM: {
      auto &R = symRange[r->aux];
      Z3_ast v = symAst[r->aux];
      if (!v) { v = symAst[r->aux] = var("i" + std::to_string(r->aux), I); range(v, R.first, R.second); }
      return mk(v, R.first, R.second);
    }
    case K_ADD: if (r->w > 8) wide++; return add(T(r->a[0]), T(r->a[1]));
    case K_MUL:
      if (r->w > 8) wide++;
      if (isC(r->a[1])) return scale(T(r->a[0]), sgn(r->a[1]->c, r->w));
      throw LiaFail();
    case K_ZEXT: return U(r->a[0]);
    case K_SEXT: return S(r->a[0]);
    case K_CONCAT: {
      auto wi = whole.find(r->id);
      if (wi != whole.end()) {
        auto R = wi->second.second;
        Z3_ast &v = wholeAst[r->id];
        if (!v) { v = var("w" + std::to_string(r->id), I); range(v, R.first, R.second); }
        return mk(v, R.first, R.second);
      }
      return add(scale(T(r->a[0]), (i128)1 << r->a[1]->w), U(r->a[1]));
    }
    case K_EXTRACT: {
      LTerm a = T(r->a[0]);
      if (r->aux == 0) return a;
      return qr(U(r->a[0]), (i128)1 << r->aux).first;
    }
    case K_ITE: {
      LTerm a = T(r->a[1]), b = T(r->a[2]);
      return mk(k(Z3_mk_ite(c, Bo(r->a[0]), a.t, b.t)), std::min(a.lo, b.lo), std::max(a.hi, b.hi));
    }
    case K_UDIV: if (isC(r->a[1]) && r->a[1]->c && r->w <= 64) return qr(U(r->a[0]), (i128)r->a[1]->c).first; throw LiaFail();
    case K_UREM: if (isC(r->a[1]) && r->a[1]->c && r->w <= 64) return qr(U(r->a[0]), (i128)r->a[1]->c).second; throw LiaFail();
    case K_SDIV: case K_SREM: {
      if (!isC(r->a[1]) || r->w > 64) throw LiaFail();
      i128 d = sgn(r->a[1]->c, r->w);
      LTerm a = S(r->a[0]);
      if (d <= 0) throw LiaFail();
      if (a.lo >= 0) { auto p = qr(a, d); return r->k == K_SDIV ? p.first : p.second; }
      if (a.hi <= 0) { auto p = qr(scale(a, -1), d); return scale(r->k == K_SDIV ? p.first : p.second, -1); }
      Z3_ast neg = k(Z3_mk_lt(c, a.t, num(0)));
      LTerm m = mk(k(Z3_mk_ite(c, neg, scale(a, -1).t, a.t)), 0, std::max(-a.lo, a.hi));
      auto p = qr(m, d);
      LTerm x = r->k == K_SDIV ? p.first : p.second;
      return mk(k(Z3_mk_ite(c, neg, scale(x, -1).t, x.t)), -x.hi, x.hi);
    }
    default: throw LiaFail();
    }
  }
  Z3_ast Bo(Ref r) {
    auto it = bm.find(r->id);
    if (it != bm.end()) return it->second;
    Z3_ast v = k(Bo0(r));
    bm.emplace(r->id, v);
    return v;
  }
  Z3_ast cmp(LTerm a, LTerm b, bool eq) {
    if (eq) {
      if (a.hi < b.lo || b.hi < a.lo) return Z3_mk_false(c);
      return Z3_mk_eq(c, a.t, b.t);
    }
    if (a.hi < b.lo) return Z3_mk_true(c);
    if (a.lo >= b.hi) return Z3_mk_false(c);
    return Z3_mk_lt(c, a.t, b.t);
  }
  Z3_ast Bo0(Ref r) {
    switch (r->k) {
    case K_CONST: return r->c ? Z3_mk_true(c) : Z3_mk_false(c);
    case K_SYM: return Z3_mk_const(c, k0("b" + std::to_string(r->aux)), B);
    case K_AND: { Z3_ast a[2] = {Bo(r->a[0]), Bo(r->a[1])}; return Z3_mk_and(c, 2, a); }
    case K_OR: { Z3_ast a[2] = {Bo(r->a[0]), Bo(r->a[1])}; return Z3_mk_or(c, 2, a); }
    case K_XOR: if (isC(r->a[1]) && r->a[1]->c) return Z3_mk_not(c, Bo(r->a[0])); return Z3_mk_xor(c, Bo(r->a[0]), Bo(r->a[1]));
    case K_ITE: return Z3_mk_ite(c, Bo(r->a[0]), Bo(r->a[1]), Bo(r->a[2]));
    case K_EQ: {
      if (r->a[0]->w == 1) return Z3_mk_eq(c, Bo(r->a[0]), Bo(r->a[1]));
      if (r->a[0]->w > 8) wide++;
      LTerm a = T(r->a[0]), b = T(r->a[1]);
      unsigned w = r->a[0]->w;
      if (w > 80) throw LiaFail();
      i128 M = (i128)1 << w;
      // both already within one period
      if (std::max(a.hi, b.hi) - std::min(a.lo, b.lo) < M) return cmp(a, b, true);
      return cmp(fit(a, w, 0), fit(b, w, 0), true);
    }
    case K_ULT: if (r->a[0]->w > 8) wide++; return cmp(U(r->a[0]), U(r->a[1]), false);
    case K_SLT: if (r->a[0]->w > 8) wide++; return cmp(S(r->a[0]), S(r->a[1]), false);
    case K_EXTRACT: { // one bit of a number
      Ref a = r->a[0];
      if (a->w == 1) return Bo(a);
      if (r->aux == a->w - 1) return cmp(S(a), cst(0), false);
      return cmp(qr(qr(U(a), (i128)1 << r->aux).first, 2).second, cst(1), true);
    }
    default: throw LiaFail();
    }
  }
};
bool symsOnly(Ref r, std::vector<Ref> &out) {
  if (r->k == K_SYM) { out.push_back(r); return r->w == 8; }
  if (r->k == K_CONCAT) return symsOnly(r->a[0], out) && symsOnly(r->a[1], out);
  return false;
}
void flatten(Ref r, std::vector<Ref> &out) {
  if (r->k == K_AND && r->w == 1) { flatten(r->a[0], out); flatten(r->a[1], out); }
  else out.push_back(r);
}
} // namespace

Res Solver::lia(const std::vector<Ref> &sel, std::vector<std::pair<uint32_t, uint64_t>> &asg, unsigned timeout) {
  // operations present, parents of symbols
  static std::vector<uint32_t> mark; static uint32_t ep = 0; ep++;
  std::vector<Ref> st, conj;
  for (auto r : sel) { st.push_back(r); flatten(r, conj); }
  bool need = false;
  std::map<uint32_t, int> par; // symbol -> number of distinct parents
  std::vector<Ref> cats;
  Lia L(ctx);
  while (!st.empty()) {
    Ref x = st.back(); st.pop_back();
    if (mark.size() <= x->id) mark.resize(allNodes().size(), 0);
    if (mark[x->id] == ep) continue;
    mark[x->id] = ep;
    switch (x->k) {
    case K_CONST: case K_EQ: case K_ITE: case K_ZEXT: case K_SEXT: case K_EXTRACT: break;
    case K_SYM: L.symRef[x->aux] = x; L.symRange[x->aux] = {0, x->w >= 64 ? (i128)~0ull : (i128)maskw(x->w)}; break;
    case K_CONCAT: cats.push_back(x); break;
    case K_AND: case K_OR: case K_XOR: if (x->w > 1) return liaOff("wide logic"); break;
    case K_ADD: if (x->w > 8) need = true; break;
    case K_MUL: case K_UDIV: case K_UREM: case K_SDIV: case K_SREM: if (!isC(x->a[1])) return liaOff("non-linear"); if (x->w > 8) need = true; break;
    case K_ULT: case K_SLT: break;
    default: return liaOff("operation");
    }
    for (int j = 0; j < x->n; j++) { if (x->a[j]->k == K_SYM) par[x->a[j]->aux]++; if (!isC(x->a[j])) st.push_back(x->a[j]); }
  }
  if (!need) return UNKNOWN;
  // numbers read as a whole: chains of byte symbols that occur nowhere else
  {
    std::map<uint32_t, int> catPar;
    for (auto x : cats) for (int j = 0; j < 2; j++) if (x->a[j]->k == K_CONCAT) catPar[x->a[j]->id]++;
    for (auto x : cats) {
      if (catPar.count(x->id)) continue; // inner link
      std::vector<Ref> sy;
      if (!symsOnly(x, sy)) continue;
      bool ok = true;
      for (auto s : sy) ok = ok && par[s->aux] == 1;
      for (Ref y = x; ok && y->k == K_CONCAT; y = y->a[1]) if (y != x && catPar[y->id] != 1) ok = false;
      if (!ok || x->w > 64) continue;
      i128 lo = -((i128)1 << (x->w - 1)), hi = -lo - 1;
      for (auto q : conj) { // bounds stated directly
        bool neg = false; Ref p = q;
        if (p->k == K_XOR && p->w == 1 && isC(p->a[1])) { neg = true; p = p->a[0]; }
        if (p->k != K_SLT) continue;
        if (p->a[0] == x && isC(p->a[1])) { i128 v = sgn(p->a[1]->c, x->w); if (!neg) hi = std::min(hi, v - 1); else lo = std::max(lo, v); }
        else if (p->a[1] == x && isC(p->a[0])) { i128 v = sgn(p->a[0]->c, x->w); if (!neg) lo = std::max(lo, v + 1); else hi = std::min(hi, v); }
      }
      if (lo > hi) return liaOff("range");
      L.whole[x->id] = {x, {lo, hi}};
    }
  }
  // byte ranges from constraints over one byte
  std::map<uint32_t, Bits> bs;
  for (auto q : conj) {
    auto &su = support(q);
    if (su.size() != 1) continue;
    auto it = L.symRef.find(su[0]);
    if (it == L.symRef.end() || it->second->w != 8) continue;
    auto p = bs.emplace(su[0], ~Bits()).first;
    p->second &= byteSet(q, su[0]);
  }
  for (auto &kv : bs) {
    if (kv.second.none()) return UNSAT;
    int lo = 0, hi = 255;
    while (!kv.second[lo]) lo++;
    while (!kv.second[hi]) hi--;
    L.symRange[kv.first] = {lo, hi};
  }
  std::vector<Z3_ast> as;
  try { for (auto q : conj) as.push_back(L.Bo(q)); } catch (LiaFail &) { return liaOff("term"); }
  Z3_solver s = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(timeout, 5000u));
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  for (auto a : as) Z3_solver_assert(ctx, s, a);
  for (auto a : L.side) Z3_solver_assert(ctx, s, a);
  Res res = UNKNOWN;
  try {
    Z3_lbool lb = Z3_solver_check(ctx, s);
    res = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : liaOff("solver");
    if (res == SAT) {
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      std::map<uint32_t, uint64_t> am;
      auto val = [&](Z3_ast a) { Z3_ast v = nullptr; int64_t x = 0; uint64_t u = 0; if (Z3_model_eval(ctx, m, a, true, &v)) { if (Z3_get_numeral_int64(ctx, v, &x)) return (uint64_t)x; if (Z3_get_numeral_uint64(ctx, v, &u)) return u; } return (uint64_t)0; };
      for (auto &kv : L.symRef) am[kv.first] = (uint64_t)L.symRange[kv.first].first;
      for (auto &kv : L.symAst) am[kv.first] = val(kv.second);
      for (auto &kv : L.symRef) if (kv.second->w == 1) { Z3_ast v = nullptr; am[kv.first] = Z3_model_eval(ctx, m, L.k(Z3_mk_const(ctx, L.k0("b" + std::to_string(kv.first)), L.B)), true, &v) && Z3_get_bool_value(ctx, v) == Z3_L_TRUE; }
      for (auto &kv : L.wholeAst) assignBits(L.whole[kv.first].first, (u128)(i128)(int64_t)val(kv.second) & maskw(L.whole[kv.first].first->w), am);
      Z3_model_dec_ref(ctx, m);
      // accept only a model of the original query
      size_t mx = 0;
      for (auto &kv : am) mx = std::max<size_t>(mx, kv.first + 1);
      std::vector<uint64_t> mv(mx, 0);
      for (auto &kv : am) mv[kv.first] = kv.second;
      Evaluator ev(mv);
      for (auto q : conj) if (!(ev.eval(q) & 1)) { res = UNKNOWN; if (getenv("GSX_SLOW")) fprintf(stderr, "[lia model rejected]\n"); break; }
      for (auto &kv : am) asg.push_back(kv);
      if (res != SAT) asg.clear();
    }
  } catch (std::exception &) { res = UNKNOWN; }
  Z3_solver_dec_ref(ctx, s);
  if (g_liacheck && res == UNSAT) {
    Z3_solver t = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, t);
    for (auto r : sel) Z3_solver_assert(ctx, t, trBool(r));
    Z3_params p2 = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p2);
    Z3_params_set_uint(ctx, p2, Z3_mk_string_symbol(ctx, "timeout"), 60000);
    Z3_solver_set_params(ctx, t, p2); Z3_params_dec_ref(ctx, p2);
    if (Z3_solver_check(ctx, t) == Z3_L_TRUE) { fprintf(stderr, "[LIA MISMATCH]\n"); abort(); }
    Z3_solver_dec_ref(ctx, t);
  }
  return res;
}
