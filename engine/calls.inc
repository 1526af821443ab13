// Included inside struct Engine: call dispatch, intrinsics, library models.
// Same function of arguments the solver proves equal: a sound shortcut that
// spares it floating-point (or real) reasoning.
typedef std::map<uint32_t, std::pair<Ref, u128>> Lin;
void linform(State &s, Ref a, u128 coef, Lin &m, u128 &k, int depth) {
  u128 mw = maskw(a->w);
  a = known(s, a);
  if (isC(a)) { k = (k + coef * a->c) & mw; return; }
  if (a->k == K_ADD) { linform(s, a->a[0], coef, m, k, depth); linform(s, a->a[1], coef, m, k, depth); return; }
  if (a->k == K_MUL && isC(a->a[1])) { linform(s, a->a[0], coef * a->a[1]->c, m, k, depth); return; }
  if (a->k == K_SHL && isC(a->a[1]) && a->a[1]->c < a->w) { linform(s, a->a[0], coef << (unsigned)a->a[1]->c, m, k, depth); return; }
  if (a->k == K_ITE) {
    int d = depth < 40 ? decide(s, a->a[0]) : -1;
    if (d >= 0) { linform(s, d ? a->a[1] : a->a[2], coef, m, k, depth + 1); return; }
  }
  if ((a->k == K_ZEXT || a->k == K_SEXT) && depth < 40) {
    Ref x = a->a[0], c = nullptr;
    auto ext = [&](Ref e, bool sx) { return sx ? mkSExt(e, a->w) : mkZExt(e, a->w); };
    if (x->k == K_ITE) {
      int d = decide(s, x->a[0]);
      if (d >= 0) { linform(s, ext(d ? x->a[1] : x->a[2], a->k == K_SEXT), coef, m, k, depth + 1); return; }
    } else if (x->k == K_ADD) c = mkAdd(ext(x->a[0], a->k == K_SEXT), ext(x->a[1], a->k == K_SEXT || (isC(x->a[1]) && x->a[1]->c >> (x->w - 1))));
    else if (x->k == K_MUL && isC(x->a[1])) c = mkMul(ext(x->a[0], a->k == K_SEXT), ext(x->a[1], a->k == K_SEXT));
    else if (a->k == K_SEXT) c = mkZExt(x, a->w);
    if (c && c != a && decide(s, mkEq(a, c)) == 1) { linform(s, c, coef, m, k, depth + 1); return; }
  }
  auto &e = m[a->id];
  e.first = a;
  e.second = (e.second + coef) & mw;
}
bool sameLinear(State &s, Ref a, Ref b) {
  Lin x, y; u128 cx = 0, cy = 0;
  linform(s, a, 1, x, cx, 0); linform(s, b, 1, y, cy, 0);
  if (cx != cy) return false;
  for (auto &p : y) { auto &e = x[p.first]; e.first = p.second.first; e.second = (e.second - p.second.second) & maskw(a->w); }
  for (auto &p : x) if (p.second.second) return false;
  return true;
}
std::map<std::pair<uint32_t, uint32_t>, bool> congMemo;
bool congruent(State &s, Ref a, Ref b, int depth) {
  if (a == b) return true;
  if (depth == 0) congMemo.clear();
  if (a->sort == SBV || isC(a) || isC(b)) return congruent1(s, a, b, depth);
  auto key = std::make_pair(a->id, b->id);
  auto it = congMemo.find(key);
  if (it != congMemo.end()) return it->second;
  bool r = congruent1(s, a, b, depth);
  congMemo[key] = r;
  return r;
}
bool congruent1(State &s, Ref a, Ref b, int depth) {
  if (a->sort != b->sort || depth > (g_real ? 300 : 12)) return false;
  // folded constants: the rounding of a different order of operations
  if (g_fold && a->sort != SBV && isC(a) && isC(b)) return std::fabs(fval(a) - fval(b)) <= 1e-11 * (1e-3 + std::fabs(fval(b)));
  if (a->sort == SBV) {
    if (a->w != b->w) return false;
    Ref eq = mkEq(a, b);
    if (!isC(eq) && sameLinear(s, a, b)) return true;
    if (isC(eq)) return eq->c != 0;
    if (s.model && !(g_real && hasFP(eq)) && !hasUF(eq)) { Evaluator e(*s.model); if (!e.eval(eq)) return false; }
    ModelP m;
    return sol.check(s.pc, mkNot(eq), s.model, &m, 5000) == UNSAT;
  }
  if (isC(a)) std::swap(a, b);
  if (isC(b) && (a->k == K_U2F || a->k == K_S2F)) {
    double v = fval(b);
    return v == std::floor(v) && std::fabs(v) < 9e15 && !(v == 0 && std::signbit(v)) && a->a[0]->w >= 8 && a->a[0]->w <= 64 && (a->k == K_S2F || v >= 0) &&
           congruent(s, a->k == K_U2F ? mkZExt(a->a[0], 80) : mkSExt(a->a[0], 80), mkC(80, (u128)(i128)(int64_t)v), depth + 1);
  }
  if (a->k != b->k || a->n != b->n || a->aux != b->aux || a->w != b->w || a->k == K_CONST || a->k == K_SYM) return false;
  if (a->k == K_U2F || a->k == K_S2F) {
    unsigned w = std::max(a->a[0]->w, b->a[0]->w);
    return a->k == K_U2F ? congruent(s, mkZExt(a->a[0], w), mkZExt(b->a[0], w), depth + 1) : congruent(s, mkSExt(a->a[0], w), mkSExt(b->a[0], w), depth + 1);
  }
  bool ok = true;
  for (int i = 0; i < a->n && ok; i++) {
    ok = congruent(s, a->a[i], b->a[i], depth + 1);
    if (!ok && g_real && (a->k == K_FSQRT || a->k == K_UF)) { ModelP m; ok = sol.check(s.pc, mkNot(mkFCmp(K_FEQ, a->a[i], b->a[i])), s.model, &m, 20000) == UNSAT; }
  }
  if (!ok && (a->k == K_FADD || a->k == K_FMUL) && a->n == 2) ok = congruent(s, a->a[0], b->a[1], depth + 1) && congruent(s, a->a[1], b->a[0], depth + 1);
  return ok;
}
void finish(State &s, const CallBase *cb, Val v) {
  setR(s, cb, v);
  if (auto *inv = dyn_cast<InvokeInst>(cb)) jump(s, inv->getNormalDest());
  else s.st.back().pc = cb->getNextNode();
}
void call(State &s, const CallBase *cb) {
  const Function *F = cb->getCalledFunction();
  std::string name;
  if (cb->isInlineAsm()) {
    // empty asm (optimisation barriers) is a no-op
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty() || (ia->getAsmString()[0] == '#' && ia->getAsmString().find('\n') == std::string::npos)) { finish(s, cb, cb->getType()->isVoidTy() ? Val() : (cb->arg_size() ? V(s, cb->getArgOperand(0)) : undefOf(cb->getType(), true))); return; }
    // cache-size queries: an unknown processor (a performance hint only)
    if (ia->getAsmString().find("cpuid") != std::string::npos) { finish(s, cb, undefOf(cb->getType(), false)); return; }
    unsupported(s, "inline asm");
  }
  if (!F) {
    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto *ff = dyn_cast<Function>(cv)) F = ff;
    else if (auto *al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliaseeObject());
    else {
      Ref p = known(s, R(s, cb->getCalledOperand()));
      while (p->k == K_ITE) p = branch(s, p->a[0]) ? p->a[1] : p->a[2];
      uint64_t a = isC(p) ? (uint64_t)p->c : concretize(s, p);
      if (a >> SLOT == 1 && ((a - (1ull << SLOT)) & 15) == 0 && (a - (1ull << SLOT)) / 16 - 1 < faddr.size()) F = faddr[(a - (1ull << SLOT)) / 16 - 1];
      else if (a >> SLOT == 2) name = builtinFns[(a - (2ull << SLOT)) / 16 - 1];
      else fail(s, "memory", "call-through-bad-pointer");
    }
  }
  if (F) name = F->getName().str();
  std::vector<Val> args;
  if (F && F->isIntrinsic()) { intrinsic(s, cast<CallInst>(cb), F->getIntrinsicID()); return; }
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    if (cb->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
    args.push_back(V(s, cb->getArgOperand(i)));
  }
  if (native(s, cb, F, name, args)) return;
  if (F && !F->isDeclaration()) {
    for (unsigned i = 0; i < cb->arg_size(); i++)
      if (cb->isByValArgument(i)) {
        Type *T = cb->getParamByValType(i);
        uint64_t n = DL->getTypeAllocSize(T);
        uint32_t id = s.mem.alloc(n, OK_STACK, cb);
        s.st.back().allocas.push_back(id);
        uint64_t base = s.mem.get(id)->base;
        copyMem(s, mkC(64, base), args[i].n, n, true);
        args[i] = mkC(64, base);
      }
    pushFrame(s, F, args, cb);
    return;
  }
  unsupported(s, "external function " + name);
}

void intrinsic(State &s, const CallInst *I, Intrinsic::ID id) {
  auto A = [&](unsigned i) -> Val { return V(s, I->getArgOperand(i)); };
  auto N = [&](unsigned i) -> Ref { return R(s, I->getArgOperand(i)); };
  auto done = [&](Val v) { finish(s, I, v); };
  switch (id) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
  case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
    done(Val()); return;
  case Intrinsic::invariant_start: done(mkC(64, 0)); return;
  case Intrinsic::stacksave: done(mkC(64, 0)); return;
  case Intrinsic::stackrestore: done(Val()); return;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
    done(A(0)); return;
  case Intrinsic::is_constant: done(mkFalse()); return;
  case Intrinsic::objectsize: done(mkC(I->getType()->getIntegerBitWidth(), cast<ConstantInt>(I->getArgOperand(1))->isOne() ? 0 : ~(u128)0)); return;
  case Intrinsic::ptrmask: done(mkAnd(N(0), N(1))); return;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t n = concretize(s, N(2));
    copyMem(s, N(0), N(1), n, true);
    done(Val()); return;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    uint64_t n = concretize(s, N(2));
    setMem(s, N(0), N(1), n);
    done(Val()); return;
  }
  case Intrinsic::umax: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkUlt(a, b), b, a); })); return;
  case Intrinsic::umin: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkUlt(a, b), a, b); })); return;
  case Intrinsic::smax: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkSlt(a, b), b, a); })); return;
  case Intrinsic::smin: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkSlt(a, b), a, b); })); return;
  case Intrinsic::abs: done(map1(A(0), [](Ref a) { return mkIte(mkSlt(a, mkC(a->w, 0)), mkSub(mkC(a->w, 0), a), a); })); return;
  case Intrinsic::fabs: done(map1(A(0), [](Ref a) { return mkFUn(K_FABS, a); })); return;
  case Intrinsic::sqrt: done(map1(A(0), [](Ref a) { return mkFUn(K_FSQRT, a); })); return;
  case Intrinsic::floor: done(map1(A(0), [](Ref a) { return mkFRnd(a, 1); })); return;
  case Intrinsic::ceil: done(map1(A(0), [](Ref a) { return mkFRnd(a, 2); })); return;
  case Intrinsic::trunc: done(map1(A(0), [](Ref a) { return mkFRnd(a, 0); })); return;
  case Intrinsic::round: done(map1(A(0), [](Ref a) { return mkFRnd(a, 3); })); return;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: done(map1(A(0), [](Ref a) { return mkFRnd(a, 4); })); return;
  case Intrinsic::copysign: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkB2F(mkOr(mkAnd(mkF2B(a), mkC(64, 0x7fffffffffffffffull)), mkAnd(mkF2B(b), mkC(64, 0x8000000000000000ull))), SF64); })); return;
  case Intrinsic::fma: done(mkFMA(N(0), N(1), N(2))); return;
  case Intrinsic::fmuladd: done(mkFBin(K_FADD, mkFBin(K_FMUL, N(0), N(1)), N(2))); return;
  case Intrinsic::sin: done(mkUF(ufIndex("sin"), N(0))); return;
  case Intrinsic::cos: done(mkUF(ufIndex("cos"), N(0))); return;
  case Intrinsic::exp: done(mkUF(ufIndex("exp"), N(0))); return;
  case Intrinsic::log: done(mkUF(ufIndex("log"), N(0))); return;
  case Intrinsic::log10: done(mkUF(ufIndex("log10"), N(0))); return;
  case Intrinsic::pow: done(mkUF(ufIndex("pow"), N(0), N(1))); return;
  case Intrinsic::powi: {
    int64_t n = (int64_t)sgn(concretize(s, N(1)), 32);
    Ref r = mkFC(1), x = N(0);
    for (int64_t i = 0; i < std::llabs(n); i++) r = mkFBin(K_FMUL, r, x);
    done(n < 0 ? mkFBin(K_FDIV, mkFC(1), r) : r); return;
  }
  case Intrinsic::maxnum: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkFCmp(K_FUNO, a, a), b, mkIte(mkFCmp(K_FUNO, b, b), a, mkIte(mkFCmp(K_FLT, a, b), b, a))); })); return;
  case Intrinsic::minnum: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkFCmp(K_FUNO, a, a), b, mkIte(mkFCmp(K_FUNO, b, b), a, mkIte(mkFCmp(K_FLT, a, b), a, b))); })); return;
  case Intrinsic::is_fpclass: {
    unsigned m = (unsigned)cast<ConstantInt>(I->getArgOperand(1))->getZExtValue();
    Ref x = N(0), r = mkFalse();
    Ref nan = mkFCmp(K_FUNO, x, x);
    Ref inf = mkFCmp(K_FEQ, mkFUn(K_FABS, x), mkFC(INFINITY));
    if ((m & 3) == 3) r = mkOr(r, nan);
    if ((m & 0x204) == 0x204) r = mkOr(r, inf);
    if ((m & 0x1f8) == 0x1f8) r = mkOr(r, mkAnd(mkNot(nan), mkNot(inf)));
    done(r); return;
  }
  case Intrinsic::ctpop: done(map1(A(0), [](Ref a) { Ref r = mkC(a->w, 0); for (unsigned i = 0; i < a->w; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->w)); return r; })); return;
  case Intrinsic::cttz: done(map1(A(0), [](Ref a) { Ref r = mkC(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkC(a->w, i), r); return r; })); return;
  case Intrinsic::ctlz: done(map1(A(0), [](Ref a) { Ref r = mkC(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkC(a->w, a->w - 1 - i), r); return r; })); return;
  case Intrinsic::bswap: done(map1(A(0), [](Ref a) { Ref r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); return r; })); return;
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Ref a = N(0), b = N(1), c = mkURem(known(s, N(2)), mkC(a->w, a->w));
    c = mkC(a->w, concretize(s, c));
    uint64_t k = (uint64_t)c->c;
    if (id == Intrinsic::fshl) done(k == 0 ? a : mkOr(mkShl(a, c), mkLShr(b, mkC(a->w, a->w - k))));
    else done(k == 0 ? b : mkOr(mkShl(a, mkC(a->w, a->w - k)), mkLShr(b, c)));
    return;
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow:
  case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    Ref a = N(0), b = N(1); unsigned w = a->w;
    if (w > 64) unsupported(s, "wide overflow op");
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    Ref x = sg ? mkSExt(a, 2 * w) : mkZExt(a, 2 * w), y = sg ? mkSExt(b, 2 * w) : mkZExt(b, 2 * w);
    Ref r = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? mkAdd(x, y)
          : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? mkSub(x, y) : mkMul(x, y);
    Ref t = mkExtract(r, 0, w);
    Ref o = mkNot(mkEq(r, sg ? mkSExt(t, 2 * w) : mkZExt(t, 2 * w)));
    done(mkAgg({Val(t), Val(o)})); return;
  }
  case Intrinsic::uadd_sat: done(map2(A(0), A(1), [](Ref a, Ref b) { Ref r = mkAdd(a, b); return mkIte(mkUlt(r, a), mkC(a->w, maskw(a->w)), r); })); return;
  case Intrinsic::usub_sat: done(map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkUlt(a, b), mkC(a->w, 0), mkSub(a, b)); })); return;
  case Intrinsic::vector_reduce_add: { Val v = A(0); Ref r = (*v.agg)[0].n; for (size_t i = 1; i < v.agg->size(); i++) r = mkAdd(r, (*v.agg)[i].n); done(r); return; }
  case Intrinsic::vector_reduce_or: { Val v = A(0); Ref r = (*v.agg)[0].n; for (size_t i = 1; i < v.agg->size(); i++) r = mkOr(r, (*v.agg)[i].n); done(r); return; }
  case Intrinsic::vector_reduce_and: { Val v = A(0); Ref r = (*v.agg)[0].n; for (size_t i = 1; i < v.agg->size(); i++) r = mkAnd(r, (*v.agg)[i].n); done(r); return; }
  case Intrinsic::vector_reduce_fadd: { Val v = A(1); Ref r = N(0); for (size_t i = 0; i < v.agg->size(); i++) r = mkFBin(K_FADD, r, (*v.agg)[i].n); done(r); return; }
  case Intrinsic::eh_typeid_for: {
    auto *g = dyn_cast<GlobalVariable>(I->getArgOperand(0)->stripPointerCasts());
    done(mkC(32, g ? selOf(g->getName().str()) : 0x7fff)); return;
  }
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail(s, "abort", "trap");
  case Intrinsic::vastart: {
    // everything goes to the overflow area
    Frame &f = s.st.back();
    uint64_t n = 8 * std::max<size_t>(f.va.size(), 1);
    uint32_t oid = s.mem.alloc(n, OK_STACK, I);
    s.st.back().allocas.push_back(oid);
    uint64_t base = s.mem.get(oid)->base;
    for (size_t i = 0; i < s.st.back().va.size(); i++) {
      Val v = s.st.back().va[i].first;
      Ref r = v.n ? v.n : mkC(64, 0);
      if (r->sort != SBV) r = mkF2B(r);
      writeC(s, oid, 8 * i, mkZExt(r, 64), 8);
    }
    Ref ap = N(0);
    writeAt(s, ap, mkC(32, 48), 4);
    writeAt(s, mkAdd(ap, mkC(64, 4)), mkC(32, 176), 4);
    writeAt(s, mkAdd(ap, mkC(64, 8)), mkC(64, base), 8);
    writeAt(s, mkAdd(ap, mkC(64, 16)), mkC(64, 0), 8);
    done(Val()); return;
  }
  case Intrinsic::vacopy: copyMem(s, N(0), N(1), 24, true); done(Val()); return;
  case Intrinsic::vaend: done(Val()); return;
  default: unsupported(s, "intrinsic " + std::string(Intrinsic::getBaseName(id)));
  }
}

static bool startsWith(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }

// library functions modelled natively; true when handled
bool native(State &s, const CallBase *cb, const Function *F, const std::string &n, std::vector<Val> &a) {
  auto done = [&](Val v) { finish(s, cb, v); return true; };
  auto N = [&](unsigned i) -> Ref { if (i >= a.size() || !a[i].n) unsupported(s, "bad argument of " + n); return known(s, a[i].n); };
  auto Z = [&] { return mkC(64, 0); };
  if (n.empty()) return false;
  // ---- harness interface
  if (startsWith(n, "vf_")) {
    if (n == "vf_sym") {
      uint64_t len = concretize(s, N(1));
      std::string nm = cstr(s, N(2));
      Loc d = resolve(s, N(0), len, true);
      if (!d.conc) unsupported(s, "vf_sym at symbolic address");
      InputRec rec; rec.name = nm;
      Obj *o = s.mem.mut(d.id);
      for (uint64_t i = 0; i < len; i++) {
        Ref r = mkSym(8, nm + "[" + std::to_string(i) + "]");
        rec.bytes.push_back(r);
        setByte(o, d.off + i, r);
      }
      s.inputs.push_back(rec);
      return done(Val());
    }
    if (n == "vf_assume") {
      Ref c = N(0);
      c = mkNot(mkEq(c, mkC(c->w, 0)));
      ModelP mt, mf;
      int d = decide(s, c, &mt, &mf);
      if (d == 0) throw EndPath();
      if (d == -1) { addPC(s, c); s.model = mt; }
      return done(Val());
    }
    if (n == "vf_assert") {
      Ref c = N(0);
      c = known(s, mkNot(mkEq(c, mkC(c->w, 0))));
      std::string id = cstr(s, N(1));
      auto &st = asserts[id];
      st[0]++;
      check_assert(s, c, id, st);
      return done(Val());
    }
    if (n == "vf_assert_eqd" || n == "vf_assert_close") {
      // equality of doubles: bitwise/NaN-insensitive value equality
      Ref x = N(0), y = N(1);
      std::string id = cstr(s, N(n == "vf_assert_eqd" ? 2 : 3));
      auto &st = asserts[id];
      st[0]++;
      if (!s.pins.empty()) { std::unordered_map<uint32_t, Ref> memo; x = substitute(x, s.pins, memo); y = substitute(y, s.pins, memo); }
      if (x == y || congruent(s, x, y, 0)) { st[1]++; return done(Val()); }
      if (getenv("GSX_SHOW")) fprintf(stderr, "[eqd %s] %s  VS  %s\n", id.c_str(), show(x, 12).c_str(), show(y, 12).c_str());
      Ref c = mkFCmp(K_FEQ, x, y), loose = nullptr;
      if (g_fold && n == "vf_assert_close") { // folded constants: equal up to the given relative tolerance
        Ref d = mkFBin(K_FSUB, x, y), m = mkFBin(K_FMUL, N(2), mkFBin(K_FADD, mkFC(1), mkFUn(K_FABS, y)));
        c = mkAnd(mkFCmp(K_FLE, d, m), mkFCmp(K_FLE, mkFUn(K_FNEG, m), d));
        Ref m2 = mkFBin(K_FMUL, mkFC(100), m);
        loose = mkAnd(mkFCmp(K_FLE, d, m2), mkFCmp(K_FLE, mkFUn(K_FNEG, m2), d));
      }
      if (!g_real) c = mkOr(c, mkAnd(mkFCmp(K_FUNO, x, x), mkFCmp(K_FUNO, y, y)));
      check_assert(s, c, id, st, loose);
      return done(Val());
    }
    if (n == "vf_reach") { reach[cstr(s, N(0))]++; return done(Val()); }
    if (n == "vf_choice") {
      uint64_t k = concretize(s, N(0));
      std::string nm = cstr(s, N(1));
      // idempotent under re-execution: the input record is created once
      std::string tag = "choice@" + std::to_string(s.steps);
      if (k > 65536) unsupported(s, "vf_choice of more than 65536");
      // recorded as one byte, or two (low, high) where the choice needs them
      std::vector<Ref> r{mkSym(8, nm)};
      if (k > 256) r.push_back(mkSym(8, nm));
      InputRec rec; rec.name = nm; rec.bytes = r;
      s.inputs.push_back(rec);
      auto take = [&](State &o, uint64_t i) {
        auto m = std::make_shared<Model>(*o.model);
        for (size_t b = 0; b < r.size(); b++) {
          uint64_t v = (i >> (8 * b)) & 255;
          addPC(o, mkEq(r[b], mkC(8, v)));
          if (m->size() <= r[b]->aux) m->resize(r[b]->aux + 1, 0);
          (*m)[r[b]->aux] = v;
        }
        o.model = m;
      };
      // explicit fork over all k values (each is a solver-consistent assignment)
      for (uint64_t i = 1; i < k; i++) {
        auto o = clone(s);
        take(*o, i);
        finish(*o, cb, mkC(32, i));
        work.push_back(std::move(o));
      }
      take(s, 0);
      return done(mkC(32, 0));
    }
    if (n == "vf_concrete") { // fork over the feasible values of an integer
      Ref v = N(0); uint64_t x = concretize(s, v);
      return done(mkC(v->w, x));
    }
    if (n == "vf_pin") { // from here on, assertions are decided for one value of this input per path
      Ref v = N(0), want = N(1);
      auto sup = ::support(v);
      if (sup.size() > 8) unsupported(s, "vf_pin of a compound value");
      ModelP m = s.model, m2;
      Ref val = want;
      if (concretize(s, N(2)) == 0) { Evaluator e(*m); val = mkFCbits(SF64, (uint64_t)e.eval(v)); }
      if (sol.check(s.pc, mkFCmp(K_FEQ, v, val), m, &m2, 20000) != SAT) throw EndPath();
      addPC(s, mkFCmp(K_FEQ, v, val)); s.model = m2;
      for (uint32_t i : sup) s.pins[i] = i < m2->size() ? (*m2)[i] : 0;
      { Evaluator e(*m2); if (e.eval(v) != e.eval(val)) unsupported(s, "vf_pin: model does not reproduce the value"); }
      return done(Val());
    }
    if (n == "vf_limit") { s.limit = s.steps + concretize(s, N(0)); return done(Val()); }
    if (n == "vf_nolimit") { s.limit = 0; return done(Val()); }
    if (n == "vf_symbolic") return done(mkC(32, 1));
    if (n == "vf_real") return done(mkC(32, g_real));
    if (n == "vf_stop") endOK(s);
    if (n == "vf_print") { fprintf(stderr, "[vf_print] %s\n", cstr(s, N(0)).c_str()); return done(Val()); }
    if (n == "vf_show") { fprintf(stderr, "[vf_show] %s\n", show(N(0), 12).c_str()); return done(Val()); }
    if (n == "vf_showd") { fprintf(stderr, "[vf_showd] %s\n", show(N(0), 12).c_str()); return done(Val()); }
    if (n == "vf_is_concrete") return done(mkC(32, isC(N(0))));
    if (n == "vf_freshd") { return done(mkB2F(mkSym(64, "fresh"), SF64)); }
    if (n == "vf_dec10") { // N * 10^e for large N/e: correctly rounded, uninterpreted when symbolic
      return done(mkUF(ufIndex("dec10"), mkU2F(N(0), SF64), mkS2F(N(1), SF64)));
    }
    if (n == "vf_fmtd") { // write a printed double: concrete text when known
      Ref v = N(1);
      uint64_t prec = concretize(s, N(2)), conv = concretize(s, N(3));
      if (isC(v)) {
        char f[16], buf[512];
        snprintf(f, sizeof f, "%%.%d%c", (int)prec, (int)conv);
        int k = snprintf(buf, sizeof buf, f, fval(v));
        uint64_t d = concretize(s, N(0));
        for (int i = 0; i < k; i++) writeAt(s, mkC(64, d + i), mkC(8, buf[i]), 1);
        return done(mkC(32, k));
      }
      // symbolic: an injective 8-byte token standing for the decimal text
      Ref b = mkF2B(v);
      uint64_t d = concretize(s, N(0));
      for (int i = 0; i < 8; i++) writeAt(s, mkC(64, d + i), mkExtract(b, 8 * i, 8), 1);
      return done(mkC(32, 8));
    }
    return false;
  }
  // ---- allocation
  if (startsWith(n, "_Znwm") || startsWith(n, "_Znam") || n == "malloc") {
    uint64_t k = concretize(s, N(0));
    if (k > (1u << 22)) { if (n == "malloc") return done(Z()); throwStd(s, "_ZTISt9bad_alloc"); return true; }
    return done(mkC(64, newHeap(s, k)));
  }
  if (n == "calloc") { uint64_t k = concretize(s, mkMul(N(0), N(1))); return done(mkC(64, newHeap(s, k, true))); }
  if (n == "realloc") {
    uint64_t p = concretize(s, N(0)), k = concretize(s, N(1));
    uint64_t q = newHeap(s, k);
    if (p) { if (!validAt(s, p, 0)) fail(s, "memory", "invalid-realloc"); const Obj *o = s.mem.get((uint32_t)(p >> SLOT)); copyMem(s, mkC(64, q), mkC(64, p), std::min(o->size, k), true); doFree(s, mkC(64, p)); }
    return done(mkC(64, q));
  }
  if (startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv") || n == "free") { doFree(s, N(0)); return done(Val()); }
  // ---- strings
  if (n == "memcpy" || n == "memmove") { uint64_t k = concretize(s, N(2)); copyMem(s, N(0), N(1), k, n == "memmove"); return done(a[0]); }
  if (n == "memset") { uint64_t k = concretize(s, N(2)); setMem(s, N(0), N(1), k); return done(a[0]); }
  if (n == "memcmp" || n == "bcmp") { uint64_t k = concretize(s, N(2)); return done(cmpMem(s, N(0), N(1), k, false)); }
  if (n == "strcmp") return done(cmpMem(s, N(0), N(1), ~0ull, true));
  if (n == "strncmp") { uint64_t k = concretize(s, N(2)); return done(cmpMem(s, N(0), N(1), k, true)); }
  if (n == "strlen" || n == "strnlen") {
    uint64_t lim = n == "strnlen" ? concretize(s, N(1)) : ~0ull;
    Ref p = N(0);
    for (uint64_t i = 0;; i++) {
      if (i == lim) return done(mkC(64, i));
      Ref b = readAt(s, mkAdd(p, mkC(64, i)), 1);
      if (branch(s, mkEq(b, mkC(8, 0)))) return done(mkC(64, i));
    }
  }
  if (n == "memchr") {
    uint64_t k = concretize(s, N(2)); Ref c = mkExtract(N(1), 0, 8), p = N(0);
    for (uint64_t i = 0; i < k; i++) {
      Ref b = readAt(s, mkAdd(p, mkC(64, i)), 1);
      if (branch(s, mkEq(b, c))) return done(mkAdd(p, mkC(64, i)));
    }
    return done(Z());
  }
  // ---- math
  {
    static const std::set<std::string> uf1 = {"sin", "cos", "tan", "atan", "asin", "acos", "exp", "log", "log10", "cbrt"};
    static const std::set<std::string> uf2 = {"atan2", "pow", "fmod", "hypot"};
    if (uf1.count(n)) return done(mkUF(ufIndex(n), N(0)));
    if (n == "pow" && isC(N(1)) && fval(N(1)) == 2) return done(mkFBin(K_FMUL, N(0), N(0)));
    if (uf2.count(n)) return done(mkUF(ufIndex(n), N(0), N(1)));
    if (n == "sqrt") return done(mkFUn(K_FSQRT, N(0)));
    if (n == "fabs") return done(mkFUn(K_FABS, N(0)));
    if (n == "floor") return done(mkFRnd(N(0), 1));
    if (n == "ceil") return done(mkFRnd(N(0), 2));
    if (n == "trunc") return done(mkFRnd(N(0), 0));
    if (n == "round") return done(mkFRnd(N(0), 3));
    if (n == "rint" || n == "nearbyint") return done(mkFRnd(N(0), 4));
    if (n == "fma") return done(mkFMA(N(0), N(1), N(2)));
    if (n == "lround" || n == "llround") return done(mkF2S(mkFRnd(N(0), 3), 64));
    if (n == "lrint" || n == "llrint") return done(mkF2S(mkFRnd(N(0), 4), 64));
    if (n == "fmax") return done(mkIte(mkFCmp(K_FLT, N(0), N(1)), N(1), N(0)));
    if (n == "fmin") return done(mkIte(mkFCmp(K_FLT, N(1), N(0)), N(1), N(0)));
    if (n == "modf") {
      Ref ip = mkFRnd(N(0), 0);
      writeAt(s, N(1), mkF2B(ip), 8);
      return done(mkFBin(K_FSUB, N(0), ip));
    }
    if (n == "sincos") { writeAt(s, N(1), mkF2B(mkUF(ufIndex("sin"), N(0))), 8); writeAt(s, N(2), mkF2B(mkUF(ufIndex("cos"), N(0))), 8); return done(Val()); }
  }
  // ---- process / errors
  if (n == "__errno_location") return done(mkC(64, errnoAddr));
  if (n == "abort" || n == "_exit" || n == "exit" || n == "quick_exit") fail(s, "abort", n);
  if (n == "__assert_fail") { std::string t = cstr(s, N(0)); fail(s, "abort", "assertion failed: " + t); }
  if (n == "_ZSt9terminatev" || n == "__clang_call_terminate") fail(s, "terminate", "std::terminate");
  // ---- C++ runtime
  if (n == "__cxa_allocate_exception") return done(mkC(64, newHeap(s, std::max<uint64_t>(concretize(s, N(0)), 32), true)));
  if (n == "__cxa_free_exception") { doFree(s, N(0)); return done(Val()); }
  if (n == "__cxa_throw") {
    uint64_t p = concretize(s, N(0)), ti = concretize(s, N(1));
    std::string tn = "?";
    for (auto &g : M->globals()) { auto it = gaddr.find(&g); if (it != gaddr.end() && it->second == ti) tn = g.getName().str(); }
    s.excType[p] = tn;
    unwind(s, p);
    return true;
  }
  if (n == "__cxa_rethrow") { if (s.caught.empty()) fail(s, "terminate", "rethrow without exception"); uint64_t p = s.caught.back(); s.caught.pop_back(); unwind(s, p); return true; }
  if (n == "__cxa_begin_catch") { s.caught.push_back(concretize(s, N(0))); return done(a[0]); }
  if (n == "__cxa_get_exception_ptr") return done(a[0]);
  if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return done(Val()); }
  if (n == "_Unwind_Resume") { uint64_t p = concretize(s, N(0)); popFrame(s); unwind(s, p); return true; }
  if (n == "__cxa_guard_acquire") { Ref b = readAt(s, N(0), 1); return done(mkIte(mkEq(b, mkC(8, 0)), mkC(32, 1), mkC(32, 0))); }
  if (n == "__cxa_guard_release") { writeAt(s, N(0), mkC(8, 1), 1); return done(Val()); }
  if (n == "__cxa_guard_abort") return done(Val());
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") return done(mkC(32, 0));
  if (n == "__cxa_pure_virtual") fail(s, "abort", n);
  if (n == "@exc_dtor") return done(Val());
  if (n == "@exc_what") return done(mkC(64, whatStr));
  if (startsWith(n, "_ZSt") && n.find("__throw_") != std::string::npos) {
    std::string ti = "_ZTISt13runtime_error";
    if (n.find("out_of_range") != std::string::npos) ti = "_ZTISt12out_of_range";
    else if (n.find("length_error") != std::string::npos) ti = "_ZTISt12length_error";
    else if (n.find("logic_error") != std::string::npos) ti = "_ZTISt11logic_error";
    else if (n.find("invalid_argument") != std::string::npos) ti = "_ZTISt16invalid_argument";
    else if (n.find("bad_array_new_length") != std::string::npos) ti = "_ZTISt20bad_array_new_length";
    else if (n.find("bad_alloc") != std::string::npos) ti = "_ZTISt9bad_alloc";
    else if (n.find("bad_cast") != std::string::npos) ti = "_ZTISt8bad_cast";
    else if (n.find("bad_function_call") != std::string::npos) ti = "_ZTISt17bad_function_call";
    throwStd(s, ti);
    return true;
  }
  if (n == "__cxa_throw_bad_array_new_length") { throwStd(s, "_ZTISt20bad_array_new_length"); return true; }
  {
    static const char *exc[] = {"13runtime_error", "11logic_error", "12out_of_range", "16invalid_argument", "12length_error", "12domain_error", "11range_error", "14overflow_error", "15underflow_error", "9exception"};
    for (auto e : exc) {
      std::string p = std::string("_ZNSt") + e;
      std::string pk = std::string("_ZNKSt") + e + "4whatEv";
      if (n == pk) return done(mkC(64, whatStr));
      if (startsWith(n, p.c_str()) && n.size() > p.size()) {
        char k = n[p.size()];
        if (k == 'C') { writeAt(s, N(0), mkC(64, excVtab), 8); return done(Val()); }
        if (k == 'D') return done(Val());
      }
    }
  }
  // ---- output is not part of any property
  {
    static const std::set<std::string> ign = {"printf", "fprintf", "vprintf", "vfprintf", "puts", "putchar", "fputc", "putc", "fputs", "fwrite", "fflush", "perror", "fputc_unlocked", "setlocale", "setvbuf", "clock", "mcount"};
    if (ign.count(n)) { unsigned w = cb->getType()->isVoidTy() ? 0 : cb->getType()->isPointerTy() ? 64 : cb->getType()->getIntegerBitWidth(); return done(w ? Val(mkC(w, 0)) : Val()); }
    if (n == "time" || n == "_ZNSt6chrono3_V212system_clock3nowEv" || n == "_ZNSt6chrono3_V212steady_clock3nowEv") return done(mkSym(64, "clock"));
  }
  if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return done(Val());
  if (F && F->isDeclaration() && (startsWith(n, "_ZNSo") || startsWith(n, "_ZStls") || startsWith(n, "_ZSt4endl") || startsWith(n, "_ZSt16__ostream_insert"))) return done(a.empty() ? Val() : a[0]);
  if (n == "_ZSt11_Hash_bytesPKvmm") { // deterministic hash of concrete/symbolic bytes
    uint64_t k = concretize(s, N(1));
    Ref h = mkC(64, 1469598103934665603ull);
    for (uint64_t i = 0; i < k; i++) h = mkMul(mkXor(h, mkZExt(readAt(s, mkAdd(N(0), mkC(64, i)), 1), 64)), mkC(64, 1099511628211ull));
    return done(h);
  }
  return false;
}
void check_assert(State &s, Ref c, const std::string &id, std::array<uint64_t, 3> &st, Ref loose = nullptr) {
  if (c == mkTrue()) { st[1]++; return; }
  ModelP m;
  bool viaModel = false;
  // constants folded: inputs of this path that miss even a much wider tolerance are a counterexample
  if (loose && s.model) { Evaluator e(*s.model); if (!e.eval(loose)) { m = s.model; viaModel = true; } }
  if (s.model && !(g_real && hasFP(c)) && !hasUF(c)) { Evaluator e(*s.model); if (!e.eval(c)) { m = s.model; viaModel = true; } }
  Res r = viaModel ? SAT : sol.check(s.pc, mkNot(c), s.model, &m, loose ? (incomplete.count("solver-unknown-assert:" + id) ? 4000u : 20000u) : std::max(sol.defTimeout, 60000u));
  if (r == UNSAT) { st[1]++; learn(s, c); return; }
  if (g_real && r != UNSAT && s.model) { // functions are free in the query: prefer inputs that fail in plain arithmetic
    Evaluator e(*s.model);
    if (!e.eval(c)) { m = s.model; r = SAT; }
  }
  if (r == UNKNOWN) { incomplete["solver-unknown-assert:" + id]++; return; }
  st[2]++;
  if (trace) fprintf(stderr, "assert %s fails: %s\n", id.c_str(), show(c, 10).c_str());
  report(s, "assert", id, m);
  if (loose) throw EndPath();
  // continue with the assertion assumed, if possible
  ModelP m2;
  Res k = sol.check(s.pc, c, s.model, &m2);
  if (k != SAT) throw EndPath();
  addPC(s, c); s.model = m2;
}
