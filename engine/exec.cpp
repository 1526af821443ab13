#include <thread>
#include <chrono>
// Symbolic executor for LLVM IR (forking, byte-precise memory, C++ exceptions).
#include "solver.hpp"
#include <unistd.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <array>
#include <chrono>
#include <functional>
#include <set>
#include <unordered_set>

using namespace llvm;

// ---------------------------------------------------------------- values ---
struct Val {
  Ref n = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(Ref r) : n(r) {}
};
static Val mkAgg(std::vector<Val> v) { Val r; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }

// ---------------------------------------------------------------- memory ---
enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP };
struct Obj {
  uint64_t base, size;
  ObjKind kind;
  bool alive = true, ro = false;
  const Value *site = nullptr;
  std::vector<uint8_t> b, st; // st: 0 uninit, 1 concrete, 2 symbolic
  std::unordered_map<uint32_t, Ref> sym;
};
typedef std::shared_ptr<Obj> ObjP;
struct Page { std::array<ObjP, 32> o; };
static const unsigned SLOT = 24;
static const uint64_t BIAS = 1 << 20;
static const uint32_t FIRSTID = 16;

struct Memory {
  std::vector<std::shared_ptr<Page>> pages;
  uint32_t next = FIRSTID;
  const Obj *get(uint32_t id) const {
    if (id >= next) return nullptr;
    auto &p = pages[id / 32];
    return p ? p->o[id % 32].get() : nullptr;
  }
  Obj *mut(uint32_t id) {
    auto &p = pages[id / 32];
    if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    auto &o = p->o[id % 32];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
  }
  uint32_t alloc(uint64_t size, ObjKind k, const Value *site) {
    uint32_t id = next++;
    if (pages.size() <= id / 32) pages.resize(id / 32 + 1);
    auto &p = pages[id / 32];
    if (!p) p = std::make_shared<Page>();
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    auto o = std::make_shared<Obj>();
    o->base = ((uint64_t)id << SLOT) + BIAS;
    o->size = size; o->kind = k; o->site = site;
    o->b.resize(size); o->st.resize(size, 0);
    p->o[id % 32] = o;
    return id;
  }
  void kill(uint32_t id) { // keep a tombstone
    Obj *o = mut(id);
    o->alive = false;
    std::vector<uint8_t>().swap(o->b); std::vector<uint8_t>().swap(o->st);
    o->sym.clear();
  }
};

// ---------------------------------------------------------------- frames ---
struct FnInfo {
  const Function *f;
  DenseMap<const Value *, unsigned> idx;
  unsigned nregs = 0;
};
struct Frame {
  const Function *f = nullptr;
  FnInfo *fi = nullptr;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  const Instruction *pc = nullptr;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  std::vector<std::pair<Val, Type *>> va;
  const CallBase *call = nullptr; // call site in the caller
  Ref exc = nullptr;              // in-flight exception for landingpad
  uint32_t sel = 0;
};
struct InputRec { std::string name; std::vector<Ref> bytes; };
struct State {
  std::vector<Frame> st;
  Memory mem;
  std::vector<Ref> pc;
  std::unordered_map<uint32_t, Ref> eq; // node id -> constant
  ModelP model;
  std::vector<InputRec> inputs;
  std::unordered_map<uint64_t, std::string> excType; // exception object -> typeinfo name
  std::vector<uint64_t> caught;
  uint64_t steps = 0, limit = 0;
  unsigned depth = 0;
  std::set<std::string> tags;
  std::map<uint32_t, u128> pins; // symbol index -> value (vf_pin)
  uint64_t id = 0;
};
typedef std::unique_ptr<State> StateP;

struct Violation {
  std::string kind, id, where;
  std::vector<std::pair<std::string, std::string>> inputs;
};
struct EndPath {}; // path finished (error or normal)
struct Retry {};   // instruction must be re-executed (state was forked)

// ---------------------------------------------------------------- engine ---
struct Engine {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout *DL = nullptr;
  Solver sol;
  std::vector<StateP> work;
  std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fns;
  DenseMap<const Constant *, Val> ccache;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr;
  std::vector<const Function *> faddr;
  std::vector<std::string> builtinFns;
  uint64_t errnoAddr = 0, excVtab = 0, whatStr = 0;
  std::unordered_map<std::string, uint32_t> selIds;
  std::vector<Violation> violations;
  std::map<std::string, int> vcount;
  std::map<std::string, std::array<uint64_t, 3>> asserts; // id -> checked, discharged, violated
  std::map<std::string, uint64_t> reach;
  std::map<std::string, uint64_t> incomplete;
  uint64_t nPaths = 0, nForks = 0, nInstr = 0, nKilled = 0, nStates = 0;
  std::unordered_set<const BasicBlock *> visited;
  std::unordered_set<const Function *> entered;
  double maxTime = 300;
  uint64_t stepCap = 20000000;
  unsigned maxViol = 3;
  bool trace = false;
  std::chrono::steady_clock::time_point t0;
  State *S = nullptr;
  bool cutTime = false;
  uint64_t maxPaths = 0;
  std::vector<std::string> pathSamples;

  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ---- constraints --------------------------------------------------------
  void learn(State &s, Ref c) {
    s.eq[c->id] = mkTrue();
    if (c->k == K_XOR && c->w == 1 && c->a[1] == mkTrue()) {
      s.eq[c->a[0]->id] = mkFalse();
      // not(or(a,b)) -> both false
      if (c->a[0]->k == K_OR && c->a[0]->w == 1) { learn(s, mkNot(c->a[0]->a[0])); learn(s, mkNot(c->a[0]->a[1])); }
    } else if (c->k == K_EQ && isC(c->a[1])) s.eq[c->a[0]->id] = c->a[1];
    else if (c->k == K_AND && c->w == 1) { learn(s, c->a[0]); learn(s, c->a[1]); }
  }
  void addPC(State &s, Ref c) {
    if (isC(c)) return;
    if (c->k == K_AND && c->w == 1) { addPC(s, c->a[0]); addPC(s, c->a[1]); return; }
    if (c->k == K_XOR && c->w == 1 && c->a[1] == mkTrue() && c->a[0]->k == K_OR) {
      addPC(s, mkNot(c->a[0]->a[0])); addPC(s, mkNot(c->a[0]->a[1])); return;
    }
    auto it = s.eq.find(c->id);
    if (it != s.eq.end() && it->second == mkTrue()) { bool in = false; for (auto p : s.pc) if (p == c) in = true; if (in) return; }
    s.pc.push_back(c);
    learn(s, c);
  }
  int kbudget = 0;
  Ref known(State &s, Ref r) { kbudget = 400; return known1(s, r); }
  Ref known1(State &s, Ref r) {
    if (isC(r) || --kbudget < 0) return r;
    auto it = s.eq.find(r->id);
    if (it != s.eq.end()) return it->second;
    if (r->w == 1 && r->sort == SBV) {
      if (r->k == K_XOR && r->a[1] == mkTrue()) { Ref k = known1(s, r->a[0]); if (isC(k)) return mkNot(k); }
      else if (r->k == K_AND) {
        Ref a = known1(s, r->a[0]), b = known1(s, r->a[1]);
        if (a != r->a[0] || b != r->a[1]) return mkAnd(a, b);
      } else if (r->k == K_OR) {
        Ref a = known1(s, r->a[0]), b = known1(s, r->a[1]);
        if (a != r->a[0] || b != r->a[1]) return mkOr(a, b);
      } else if (r->k == K_EQ || r->k == K_ULT || r->k == K_SLT) {
        Ref a = known1(s, r->a[0]), b = known1(s, r->a[1]);
        if (a != r->a[0] || b != r->a[1]) return r->k == K_EQ ? mkEq(a, b) : r->k == K_ULT ? mkUlt(a, b) : mkSlt(a, b);
      }
    } else if (r->k == K_ZEXT) { Ref k = known1(s, r->a[0]); if (k != r->a[0]) return mkZExt(k, r->w); }
    else if (r->k == K_SEXT) { Ref k = known1(s, r->a[0]); if (k != r->a[0]) return mkSExt(k, r->w); }
    else if (r->k == K_ADD) {
      Ref a = known1(s, r->a[0]), b = known1(s, r->a[1]);
      if (a != r->a[0] || b != r->a[1]) return mkAdd(a, b);
    } else if (r->k == K_ITE) {
      Ref c = known1(s, r->a[0]);
      if (isC(c)) return known1(s, c->c ? r->a[1] : r->a[2]);
    } else if (r->k == K_CONCAT || r->k == K_MUL) {
      Ref a = known1(s, r->a[0]), b = known1(s, r->a[1]);
      if (a != r->a[0] || b != r->a[1]) return r->k == K_MUL ? mkMul(a, b) : mkConcat(a, b);
    }
    return r;
  }
  static bool hasFP(Ref r) {
    static std::unordered_map<uint32_t, bool> memo;
    auto it = memo.find(r->id);
    if (it != memo.end()) return it->second;
    bool f = r->sort != SBV || r->k >= K_B2F;
    for (int i = 0; i < r->n && !f; i++) f = hasFP(r->a[i]);
    return memo[r->id] = f;
  }
  // 1: must be true, 0: must be false, -1: both feasible. mt/mf: models.
  int decide(State &s, Ref c, ModelP *mt = nullptr, ModelP *mf = nullptr) {
    c = known(s, c);
    if (isC(c)) return (int)c->c;
    bool useModel = s.model && !(g_real && hasFP(c)) && !hasUF(c);
    int side = -1;
    if (useModel) { Evaluator e(*s.model); side = (int)e.eval(c); }
    ModelP m1, m0;
    Res rt, rf;
    if (side == 1) { rt = SAT; m1 = s.model; } else rt = sol.check(s.pc, c, s.model, &m1);
    if (side == 0) { rf = SAT; m0 = s.model; } else rf = rt == UNSAT ? SAT : sol.check(s.pc, mkNot(c), s.model, &m0);
    if (rt == UNKNOWN || rf == UNKNOWN) incomplete["solver-unknown-branch"]++;
    if (rt == UNSAT) { learn(s, mkNot(c)); return 0; }
    if (rf == UNSAT) { learn(s, c); return 1; }
    if (mt) *mt = m1 ? m1 : s.model;
    if (mf) *mf = m0 ? m0 : s.model;
    return -1;
  }
  static bool hasUF(Ref r) {
    static std::unordered_map<uint32_t, bool> memo;
    auto it = memo.find(r->id);
    if (it != memo.end()) return it->second;
    bool f = r->k == K_UF || r->k == K_FREM;
    for (int i = 0; i < r->n && !f; i++) f = hasUF(r->a[i]);
    return memo[r->id] = f;
  }
  StateP clone(State &s) {
    nForks++;
    auto n = std::make_unique<State>(s);
    n->id = ++nStates;
    n->depth++;
    return n;
  }
  // decide c in the current state; fork a sibling that re-executes the
  // current instruction when both values are feasible.
  bool branch(State &s, Ref c) {
    ModelP mt, mf;
    int d = decide(s, c, &mt, &mf);
    if (d >= 0) return d;
    auto o = clone(s);
    addPC(*o, mkNot(c)); o->model = mf;
    work.push_back(std::move(o));
    addPC(s, c); s.model = mt;
    return true;
  }
  // make v concrete by forking over its feasible values
  uint64_t concretize(State &s, Ref v, unsigned lim = 600) {
    v = known(s, v);
    if (isC(v)) return (uint64_t)v->c;
    std::vector<std::pair<uint64_t, ModelP>> vals;
    std::vector<Ref> pc = s.pc;
    ModelP m = s.model;
    Ref excl = mkTrue();
    bool evalOK = !(g_real && hasFP(v)) && !hasUF(v);
    while (true) {
      ModelP nm;
      if (vals.empty() && evalOK && m) nm = m;
      else {
        Res r = sol.check(pc, excl == mkTrue() ? mkEq(v, v) : excl, m, &nm);
        if (r == UNKNOWN) { incomplete["solver-unknown-concretize"]++; break; }
        if (r == UNSAT) break;
      }
      Evaluator e(*nm);
      uint64_t x = (uint64_t)e.eval(v);
      vals.push_back({x, nm});
      excl = mkAnd(excl, mkNot(mkEq(v, mkC(v->w, x))));
      if (isC(excl)) break;
      if (vals.size() > lim) { incomplete["concretize-limit"]++; break; }
    }
    if (vals.empty()) throw EndPath();
    for (size_t i = 1; i < vals.size(); i++) {
      auto o = clone(s);
      addPC(*o, mkEq(v, mkC(v->w, vals[i].first)));
      o->eq[v->id] = mkC(v->w, vals[i].first);
      o->model = vals[i].second;
      work.push_back(std::move(o));
    }
    addPC(s, mkEq(v, mkC(v->w, vals[0].first)));
    s.eq[v->id] = mkC(v->w, vals[0].first);
    s.model = vals[0].second;
    return vals[0].first;
  }

  // ---- reporting ----------------------------------------------------------
  std::string where(State &s) {
    std::string out;
    for (int i = (int)s.st.size() - 1; i >= 0; i--) {
      const Instruction *I = s.st[i].pc;
      if (I && I->getDebugLoc()) {
        const DILocation *L = I->getDebugLoc().get();
        for (; L; L = L->getInlinedAt()) {
          std::string fn = demangle(std::string(L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getLinkageName().empty() ? L->getScope()->getSubprogram()->getName().str() : L->getScope()->getSubprogram()->getLinkageName().str() : ""));
          std::string file = L->getFilename().str();
          auto p = file.rfind('/');
          if (p != std::string::npos) file = file.substr(p + 1);
          if (fn.size() > 90) fn = fn.substr(0, 90);
          out += file + ":" + std::to_string(L->getLine()) + " " + fn + " < ";
        }
      } else out += (s.st[i].f ? demangle(s.st[i].f->getName().str()).substr(0, 90) : std::string("?")) + " < ";
    }
    if (out.size() > 1200) out.resize(1200);
    return out;
  }
  std::vector<std::pair<std::string, std::string>> dumpInputs(State &s, const Model &m) {
    std::vector<std::pair<std::string, std::string>> r;
    Evaluator e(m);
    for (auto &in : s.inputs) {
      std::string hex;
      char b[4];
      for (auto x : in.bytes) { snprintf(b, sizeof b, "%02x", (unsigned)e.eval(x) & 255); hex += b; }
      r.push_back({in.name, hex});
    }
    return r;
  }
  void report(State &s, const std::string &kind, const std::string &id, ModelP m) {
    std::string w = where(s);
    std::string top = w.substr(0, w.find(" < "));
    std::string key = kind + "|" + id + "|" + (kind == "assert" ? "" : top);
    if (vcount[key]++ >= (int)maxViol) return;
    if (!m) { if (sol.check(s.pc, mkTrue(), s.model, &m) != SAT) m = s.model; }
    if (!m) m = std::make_shared<Model>();
    Violation v{kind, id, w, dumpInputs(s, *m)};
    violations.push_back(v);
    if (trace) fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), id.c_str(), w.c_str());
  }
  [[noreturn]] void fail(State &s, const std::string &kind, const std::string &id) {
    report(s, kind, id, s.model);
    throw EndPath();
  }
  [[noreturn]] void unsupported(State &s, const std::string &what) {
    incomplete["unsupported: " + what]++;
    if (trace) fprintf(stderr, "UNSUPPORTED %s at %s\n", what.c_str(), where(s).c_str());
    throw EndPath();
  }

  // ---- memory access ------------------------------------------------------
  Ref byteAt(State &s, uint32_t id, uint64_t off) {
    const Obj *o = s.mem.get(id);
    switch (o->st[off]) {
    case 1: return mkC(8, o->b[off]);
    case 2: { Ref r = o->sym.find((uint32_t)off)->second; return known(s, r); }
    default: {
      // uninitialised byte: an arbitrary value, fixed from now on
      Ref r = mkSym(8, "uninit");
      Obj *w = s.mem.mut(id);
      w->st[off] = 2; w->sym[(uint32_t)off] = r;
      return r;
    }
    }
  }
  void setByte(Obj *o, uint64_t off, Ref r) {
    if (isC(r)) { if (o->st[off] == 2) o->sym.erase((uint32_t)off); o->st[off] = 1; o->b[off] = (uint8_t)r->c; }
    else { o->st[off] = 2; o->sym[(uint32_t)off] = r; }
  }
  static bool isDouble8(const Obj *o, uint64_t off) { (void)o; (void)off; return false; }

  Ref readC(State &s, uint32_t id, uint64_t off, unsigned n) { // n bytes, little endian
    const Obj *o = s.mem.get(id);
    bool conc = true;
    for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { conc = false; break; }
    if (conc) {
      u128 v = 0;
      for (int i = n - 1; i >= 0; i--) v = (v << 8) | o->b[off + i];
      return mkC(8 * n, v);
    }
    Ref r = byteAt(s, id, off);
    for (unsigned i = 1; i < n; i++) r = mkConcat(byteAt(s, id, off + i), r);
    return r;
  }
  void writeC(State &s, uint32_t id, uint64_t off, Ref v, unsigned n) {
    Obj *o = s.mem.mut(id);
    if (isC(v)) {
      for (unsigned i = 0; i < n; i++) {
        if (o->st[off + i] == 2) o->sym.erase((uint32_t)(off + i));
        o->st[off + i] = 1; o->b[off + i] = (uint8_t)(v->c >> (8 * i));
      }
      return;
    }
    for (unsigned i = 0; i < n; i++) setByte(o, off + i, mkExtract(v, 8 * i, 8));
  }
  struct Loc { uint32_t id; bool conc; uint64_t off; Ref offR; };

  std::string memDesc(State &s, uint64_t a, uint64_t n) {
    if (a < ((uint64_t)FIRSTID << SLOT)) return "null-or-wild";
    const Obj *o = s.mem.get((uint32_t)(a >> SLOT));
    if (!o) return "wild";
    if (!o->alive) return o->kind == OK_STACK ? "use-after-return" : "use-after-free";
    return "out-of-bounds";
  }
  bool validAt(State &s, uint64_t a, uint64_t n) {
    uint64_t id = a >> SLOT;
    if (id < FIRSTID || id >= s.mem.next) return false;
    const Obj *o = s.mem.get((uint32_t)id);
    if (!o || !o->alive) return false;
    return a >= o->base && a - o->base <= o->size && n <= o->size - (a - o->base);
  }
  Loc resolve(State &s, Ref addr, uint64_t n, bool write) {
    for (;;) {
      addr = known(s, addr);
      if (isC(addr)) {
        uint64_t a = (uint64_t)addr->c;
        if (!validAt(s, a, n)) fail(s, "memory", std::string(write ? "store-" : "load-") + memDesc(s, a, n));
        uint32_t id = (uint32_t)(a >> SLOT);
        const Obj *o = s.mem.get(id);
        if (write && o->ro) fail(s, "memory", "store-readonly");
        return {id, true, a - o->base, nullptr};
      }
      if (addr->k == K_ITE) { addr = branch(s, addr->a[0]) ? addr->a[1] : addr->a[2]; continue; }
      if (addr->k == K_ADD && addr->a[0]->k == K_ITE && looksPtr(addr->a[0])) {
        Ref t = addr->a[0]; addr = mkAdd(branch(s, t->a[0]) ? t->a[1] : t->a[2], addr->a[1]); continue; }
      if (addr->k == K_ADD && addr->a[1]->k == K_ITE && looksPtr(addr->a[1])) {
        Ref t = addr->a[1]; addr = mkAdd(branch(s, t->a[0]) ? t->a[1] : t->a[2], addr->a[0]); continue; }
      break;
    }
    uint64_t hint = 0;
    if (addr->k == K_ADD && isC(addr->a[1])) hint = (uint64_t)addr->a[1]->c;
    uint32_t id = (uint32_t)(hint >> SLOT);
    const Obj *o = nullptr;
    if (hint >> SLOT >= FIRSTID && (hint >> SLOT) < s.mem.next) o = s.mem.get(id);
    if (!o) {
      if (!s.model) sol.check(s.pc, mkTrue(), nullptr, &s.model);
      Evaluator e(*s.model);
      uint64_t a = (uint64_t)e.eval(addr);
      id = (uint32_t)(a >> SLOT);
      if (!validAt(s, a, n)) fail(s, "memory", std::string(write ? "store-" : "load-") + memDesc(s, a, n));
      o = s.mem.get(id);
    }
    if (!o->alive) fail(s, "memory", std::string(write ? "store-" : "load-") + "use-after-free");
    Ref off = mkSub(addr, mkC(64, o->base));
    if (n > o->size) fail(s, "memory", std::string(write ? "store-" : "load-") + "out-of-bounds");
    Ref in = mkNot(mkUlt(mkC(64, o->size - n), off));
    ModelP mt, mf;
    int d = decide(s, in, &mt, &mf);
    if (d != 1) {
      if (d == -1) {
        // report the out-of-bounds side, continue with the in-bounds side
        auto keep = s.model;
        report(s, "memory", std::string(write ? "store-" : "load-") + "out-of-bounds", mf);
        addPC(s, in); s.model = mt;
      } else fail(s, "memory", std::string(write ? "store-" : "load-") + "out-of-bounds");
    }
    if (write && o->ro) fail(s, "memory", "store-readonly");
    off = known(s, off);
    if (isC(off)) return {id, true, (uint64_t)off->c, nullptr};
    return {id, false, 0, off};
  }
  bool looksPtr(Ref t) {
    return t->k == K_ITE && (looksPtr(t->a[1]) || looksPtr(t->a[2]) || (isC(t->a[1]) && t->a[1]->c >> SLOT >= FIRSTID && t->a[1]->c >> 48 == 0) || (isC(t->a[2]) && t->a[2]->c >> SLOT >= FIRSTID && t->a[2]->c >> 48 == 0) ||
      (t->a[1]->k == K_ADD && isC(t->a[1]->a[1]) && t->a[1]->a[1]->c >> SLOT >= FIRSTID && t->a[1]->a[1]->c >> 48 == 0));
  }
  static unsigned tz(Ref r, int d = 6) {
    if (d == 0) return 0;
    switch (r->k) {
    case K_CONST: { if (!r->c) return r->w; unsigned k = 0; while (!(r->c >> k & 1)) k++; return k; }
    case K_CONCAT: { unsigned t = tz(r->a[1], d - 1); return t == r->a[1]->w ? t + tz(r->a[0], d - 1) : t; }
    case K_ZEXT: case K_SEXT: return std::min<unsigned>(tz(r->a[0], d - 1), r->a[0]->w);
    case K_ADD: return std::min(tz(r->a[0], d - 1), tz(r->a[1], d - 1));
    case K_MUL: return std::min<unsigned>(r->w, tz(r->a[0], d - 1) + tz(r->a[1], d - 1));
    case K_ITE: return std::min(tz(r->a[1], d - 1), tz(r->a[2], d - 1));
    default: return 0;
    }
  }
  Ref readAt(State &s, Ref addr, unsigned n) {
    Loc l = resolve(s, addr, n, false);
    if (l.conc) return readC(s, l.id, l.off, n);
    const Obj *o = s.mem.get(l.id);
    uint64_t stride = 1ull << std::min(tz(l.offR), 12u);
    uint64_t cnt = (o->size - n) / stride + 1;
    if (cnt > 1024) { uint64_t off = concretize(s, l.offR); return readC(s, l.id, off, n); }
    // group equal values
    Ref r = nullptr;
    std::vector<std::pair<Ref, Ref>> cases; // value, cond
    std::unordered_map<uint32_t, size_t> seen;
    for (uint64_t k = 0; k < cnt; k++) {
      uint64_t off = k * stride;
      Ref c = mkEq(l.offR, mkC(64, off));
      c = known(s, c);
      if (c == mkFalse()) continue;
      Ref v = readC(s, l.id, off, n);
      auto it = seen.find(v->id);
      if (it != seen.end()) cases[it->second].second = mkOr(cases[it->second].second, c);
      else { seen[v->id] = cases.size(); cases.push_back({v, c}); }
    }
    for (auto &c : cases) r = r ? mkIte(c.second, c.first, r) : c.first;
    if (!r) fail(s, "memory", "load-out-of-bounds");
    return r;
  }
  void writeAt(State &s, Ref addr, Ref v, unsigned n) {
    Loc l = resolve(s, addr, n, true);
    if (l.conc) { writeC(s, l.id, l.off, v, n); return; }
    const Obj *o0 = s.mem.get(l.id);
    uint64_t stride = 1ull << std::min(tz(l.offR), 12u);
    uint64_t cnt = (o0->size - n) / stride + 1;
    if (cnt > 160) { uint64_t off = concretize(s, l.offR); writeC(s, l.id, off, v, n); return; }
    for (uint64_t k = 0; k < cnt; k++) {
      uint64_t off = k * stride;
      Ref c = known(s, mkEq(l.offR, mkC(64, off)));
      if (c == mkFalse()) continue;
      for (unsigned i = 0; i < n; i++) {
        Ref old = byteAt(s, l.id, off + i);
        Obj *o = s.mem.mut(l.id);
        setByte(o, off + i, mkIte(c, mkExtract(v, 8 * i, 8), old));
      }
    }
  }
  Val loadT(State &s, Ref addr, Type *T) {
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      std::vector<Val> v;
      if (auto *ST = dyn_cast<StructType>(T)) {
        auto *SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++)
          v.push_back(loadT(s, mkAdd(addr, mkC(64, SL->getElementOffset(i))), ST->getElementType(i)));
      } else {
        Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
        uint64_t n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        uint64_t sz = DL->getTypeAllocSize(E);
        if (E->isIntegerTy(1) && T->isVectorTy()) unsupported(s, "load <n x i1>");
        for (uint64_t i = 0; i < n; i++) v.push_back(loadT(s, mkAdd(addr, mkC(64, i * sz)), E));
      }
      return mkAgg(v);
    }
    unsigned bits = (unsigned)DL->getTypeSizeInBits(T);
    unsigned n = (unsigned)DL->getTypeStoreSize(T);
    if (bits > 128 || T->isX86_FP80Ty()) unsupported(s, "load of wide type");
    Ref r = readAt(s, addr, n);
    if (T->isDoubleTy()) return mkB2F(r, SF64);
    if (T->isFloatTy()) return mkB2F(r, SF32);
    if (bits != 8 * n) r = mkExtract(r, 0, bits);
    return known(s, r);
  }
  void storeT(State &s, Ref addr, Type *T, const Val &v) {
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      if (auto *ST = dyn_cast<StructType>(T)) {
        auto *SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++)
          storeT(s, mkAdd(addr, mkC(64, SL->getElementOffset(i))), ST->getElementType(i), (*v.agg)[i]);
      } else {
        Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
        uint64_t n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        uint64_t sz = DL->getTypeAllocSize(E);
        for (uint64_t i = 0; i < n; i++) storeT(s, mkAdd(addr, mkC(64, i * sz)), E, (*v.agg)[i]);
      }
      return;
    }
    unsigned n = (unsigned)DL->getTypeStoreSize(T);
    if (T->isX86_FP80Ty()) unsupported(s, "store of x86_fp80");
    Ref r = v.n;
    if (!r) unsupported(s, "store of empty value");
    if (T->isDoubleTy() || T->isFloatTy()) r = mkF2B(r);
    if (r->w != 8 * n) r = mkZExt(r, 8 * n);
    writeAt(s, addr, r, n);
  }

  // ---- constants ----------------------------------------------------------
  static Sort sortOf(Type *T) { return T->isDoubleTy() ? SF64 : T->isFloatTy() ? SF32 : SBV; }
  Val undefOf(Type *T, bool fresh) {
    if (auto *ST = dyn_cast<StructType>(T)) { std::vector<Val> v; for (auto *e : ST->elements()) v.push_back(undefOf(e, fresh)); return mkAgg(v); }
    if (T->isArrayTy() || T->isVectorTy()) {
      Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
      uint64_t n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
      std::vector<Val> v; for (uint64_t i = 0; i < n; i++) v.push_back(undefOf(E, fresh)); return mkAgg(v);
    }
    if (T->isDoubleTy()) return fresh ? mkB2F(mkSym(64, "undef"), SF64) : mkFC(0);
    if (T->isFloatTy()) return fresh ? mkB2F(mkSym(32, "undef"), SF32) : mkFCbits(SF32, 0);
    if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy()) return Val();
    unsigned w = (unsigned)DL->getTypeSizeInBits(T);
    if (w > 128) w = 128;
    return fresh ? mkSym(w, "undef") : mkC(w, 0);
  }
  uint64_t addrOf(const GlobalValue *g) {
    if (auto *A = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(A->getAliaseeObject());
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto *F = dyn_cast<Function>(g)) {
      faddr.push_back(F);
      return gaddr[g] = (1ull << SLOT) + 16 * faddr.size();
    }
    fprintf(stderr, "no address for global %s\n", g->getName().str().c_str());
    return 0;
  }
  Val cval(const Constant *c) {
    auto it = ccache.find(c);
    if (it != ccache.end()) return it->second;
    Val v = cval0(c);
    if (!isa<UndefValue>(c) || isa<PoisonValue>(c)) ccache[c] = v;
    return v;
  }
  Val cval0(const Constant *c) {
    Type *T = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      const APInt &a = ci->getValue();
      u128 v = a.getRawData()[0];
      if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
      return mkC(a.getBitWidth(), v);
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      if (T->isDoubleTy()) return mkFCbits(SF64, cf->getValueAPF().bitcastToAPInt().getZExtValue());
      if (T->isFloatTy()) return mkFCbits(SF32, cf->getValueAPF().bitcastToAPInt().getZExtValue());
      return Val();
    }
    if (isa<ConstantPointerNull>(c)) return mkC(64, 0);
    if (isa<PoisonValue>(c)) return undefOf(T, false);
    if (isa<UndefValue>(c)) return undefOf(T, true);
    if (auto *g = dyn_cast<GlobalValue>(c)) return mkC(64, addrOf(g));
    if (isa<ConstantAggregateZero>(c)) return undefOf(T, false);
    if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
      std::vector<Val> v; for (unsigned i = 0; i < ca->getNumElements(); i++) v.push_back(cval(ca->getElementAsConstant(i))); return mkAgg(v);
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(cval(ca->getOperand(i))); return mkAgg(v);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto *gep = cast<GEPOperator>(ce);
        if (gep->accumulateConstantOffset(*DL, off)) return mkAdd(cval(ce->getOperand(0)).n, mkC(64, off.getZExtValue()));
        break;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return cval(ce->getOperand(0));
      case Instruction::PtrToInt: { Ref r = cval(ce->getOperand(0)).n; unsigned w = T->getIntegerBitWidth(); return w < 64 ? mkExtract(r, 0, w) : mkZExt(r, w); }
      case Instruction::IntToPtr: return mkZExt(cval(ce->getOperand(0)).n, 64);
      case Instruction::Add: return mkAdd(cval(ce->getOperand(0)).n, cval(ce->getOperand(1)).n);
      case Instruction::Sub: return mkSub(cval(ce->getOperand(0)).n, cval(ce->getOperand(1)).n);
      case Instruction::Trunc: return mkExtract(cval(ce->getOperand(0)).n, 0, T->getIntegerBitWidth());
      case Instruction::ICmp: {
        Ref a = cval(ce->getOperand(0)).n, b = cval(ce->getOperand(1)).n;
        return icmp((CmpInst::Predicate)ce->getPredicate(), a, b);
      }
      default: break;
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "unsupported constant %s\n", s.substr(0, 200).c_str());
    return undefOf(T, true);
  }
  void initInto(Obj *o, uint64_t off, const Constant *c) {
    Type *T = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
      uint64_t n = DL->getTypeAllocSize(T);
      for (uint64_t i = 0; i < n; i++) { o->st[off + i] = 1; o->b[off + i] = 0; }
      return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
      auto *SL = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++) initInto(o, off + SL->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
      uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initInto(o, off + i * sz, ca->getOperand(i));
      return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t sz = DL->getTypeAllocSize(cd->getElementType());
      for (unsigned i = 0; i < cd->getNumElements(); i++) initInto(o, off + i * sz, cd->getElementAsConstant(i));
      return;
    }
    Val v = cval(c);
    uint64_t n = DL->getTypeStoreSize(T);
    if (!v.n) { for (uint64_t i = 0; i < n; i++) { o->st[off + i] = 1; o->b[off + i] = 0; } return; }
    Ref r = v.n;
    if (r->sort != SBV) r = mkF2B(r);
    if (r->w < 8 * n) r = mkZExt(r, 8 * n);
    for (uint64_t i = 0; i < n; i++) setByte(o, off + i, mkExtract(r, 8 * i, 8));
  }

  // ---- set-up -------------------------------------------------------------
  FnInfo *info(const Function *f) {
    auto &p = fns[f];
    if (!p) {
      p = std::make_unique<FnInfo>();
      p->f = f;
      for (auto &a : f->args()) p->idx[&a] = p->nregs++;
      for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->idx[&i] = p->nregs++;
    }
    return p.get();
  }
  StateP initState() {
    auto s = std::make_unique<State>();
    s->model = std::make_shared<Model>();
    for (auto &F : *M) addrOf(&F);
    std::vector<std::pair<GlobalVariable *, uint32_t>> todo;
    for (auto &G : M->globals()) {
      uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
      if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
      uint32_t id = s->mem.alloc(sz, OK_GLOBAL, &G);
      gaddr[&G] = s->mem.get(id)->base;
      todo.push_back({&G, id});
    }
    for (auto &t : todo) {
      Obj *o = s->mem.mut(t.second);
      std::fill(o->st.begin(), o->st.end(), 1);
      if (t.first->hasInitializer()) {
        initInto(o, 0, t.first->getInitializer());
        o->ro = t.first->isConstant();
      } else if (t.first->getName() == "__libc_single_threaded") o->b[0] = 1;
    }
    auto sys = [&](uint64_t n) { uint32_t id = s->mem.alloc(n, OK_GLOBAL, nullptr); Obj *o = s->mem.mut(id); std::fill(o->st.begin(), o->st.end(), 1); return o; };
    errnoAddr = sys(4)->base;
    builtinFns = {"@exc_dtor", "@exc_what"};
    Obj *ws = sys(16); memcpy(ws->b.data(), "exception", 10); whatStr = ws->base;
    Obj *vt = sys(64);
    for (int i = 0; i < 8; i++) { uint64_t a = (2ull << SLOT) + (i == 4 ? 32 : 16); for (int j = 0; j < 8; j++) vt->b[i * 8 + j] = (uint8_t)(a >> (8 * j)); }
    excVtab = vt->base + 16;
    return s;
  }
  void pushFrame(State &s, const Function *f, const std::vector<Val> &args, const CallBase *call) {
    Frame fr;
    fr.f = f; fr.fi = info(f); fr.regs.resize(fr.fi->nregs);
    unsigned i = 0;
    for (auto &a : f->args()) { if (i < args.size()) fr.regs[i] = args[i]; (void)a; i++; }
    for (; i < args.size(); i++) fr.va.push_back({args[i], call ? call->getArgOperand(i)->getType() : nullptr});
    fr.bb = &f->getEntryBlock(); fr.pc = &fr.bb->front(); fr.call = call;
    s.st.push_back(std::move(fr));
    entered.insert(f);
    visited.insert(s.st.back().bb);
    if (s.st.size() > 400) fail(s, "stack", "recursion-too-deep");
  }
  const Val &V(State &s, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      static Val tmp[16]; static int k = 0;
      Val &t = tmp[k++ & 15];
      t = cval(c);
      return t;
    }
    Frame &f = s.st.back();
    return f.regs[f.fi->idx.find(v)->second];
  }
  Ref R(State &s, const Value *v) { const Val &x = V(s, v); if (!x.n) unsupported(s, "missing scalar value"); return x.n; }
  void setR(State &s, const Instruction *i, Val v) {
    if (i->getType()->isVoidTy()) return;
    Frame &f = s.st.back();
    f.regs[f.fi->idx.find(i)->second] = std::move(v);
  }
  void jump(State &s, const BasicBlock *to) {
    Frame &f = s.st.back();
    f.prev = f.bb; f.bb = to;
    visited.insert(to);
    const Instruction *i = &to->front();
    std::vector<std::pair<const Instruction *, Val>> vals;
    while (auto *p = dyn_cast<PHINode>(i)) {
      vals.push_back({p, V(s, p->getIncomingValueForBlock(f.prev))});
      i = i->getNextNode();
    }
    for (auto &v : vals) f.regs[f.fi->idx.find(v.first)->second] = v.second;
    f.pc = i;
  }
  void popFrame(State &s) {
    for (auto id : s.st.back().allocas) s.mem.kill(id);
    s.st.pop_back();
  }

  // ---- exceptions ---------------------------------------------------------
  uint32_t selOf(const std::string &n) { auto it = selIds.find(n); if (it != selIds.end()) return it->second; uint32_t k = selIds.size() + 1; return selIds[n] = k; }
  std::vector<std::string> bases(const std::string &ti) {
    static const std::map<std::string, std::string> ext = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
    auto it = ext.find(ti);
    if (it != ext.end()) return {it->second};
    std::vector<std::string> r;
    if (auto *g = M->getNamedGlobal(ti))
      if (g->hasInitializer())
        if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()))
          for (unsigned i = 0; i < cs->getNumOperands(); i++)
            if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()))
              if (b->getName().starts_with("_ZTI")) r.push_back(b->getName().str());
    return r;
  }
  bool catches(const std::string &thrown, const std::string &handler) {
    if (thrown == handler) return true;
    for (auto &b : bases(thrown)) if (catches(b, handler)) return true;
    return false;
  }
  // is there any handler (not cleanup) above? two-phase search
  void unwind(State &s, uint64_t exc) {
    std::string ti = s.excType[exc];
    while (true) {
      if (s.st.empty()) fail(s, "terminate", "uncaught exception");
      // the top frame's pc is at the call that threw
      const Instruction *I = s.st.back().pc;
      if (auto *inv = dyn_cast<InvokeInst>(I)) {
        const LandingPadInst *lp = inv->getUnwindDest()->getLandingPadInst();
        bool take = lp->isCleanup();
        uint32_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          if (lp->isCatch(i)) {
            const Constant *c = lp->getClause(i)->stripPointerCasts();
            if (isa<ConstantPointerNull>(c)) { take = true; sel = 0x7fff; break; }
            auto *g = dyn_cast<GlobalVariable>(c);
            if (g && catches(ti, g->getName().str())) { take = true; sel = selOf(g->getName().str()); break; }
          } else { take = true; sel = 0xffffffffu; break; } // filter
        }
        if (take) {
          s.st.back().exc = mkC(64, exc);
          s.st.back().sel = sel;
          jump(s, inv->getUnwindDest());
          return;
        }
      }
      const Function *f = s.st.back().f;
      if (f->doesNotThrow()) fail(s, "terminate", "exception leaves a nounwind function: " + ti);
      if (s.st.size() == 1) fail(s, "terminate", "uncaught exception " + ti);
      popFrame(s);
    }
  }
  uint64_t newHeap(State &s, uint64_t n, bool zero = false) {
    uint32_t id = s.mem.alloc(n, OK_HEAP, s.st.empty() ? nullptr : s.st.back().pc);
    if (zero) { Obj *o = s.mem.mut(id); std::fill(o->st.begin(), o->st.end(), 1); }
    return s.mem.get(id)->base;
  }
  void throwStd(State &s, const std::string &ti) {
    uint64_t p = newHeap(s, 32, true);
    writeC(s, (uint32_t)(p >> SLOT), 0, mkC(64, excVtab), 8);
    s.excType[p] = ti;
    unwind(s, p);
  }
  void doFree(State &s, Ref p) {
    p = known(s, p);
    while (p->k == K_ITE) p = branch(s, p->a[0]) ? p->a[1] : p->a[2];
    uint64_t a = isC(p) ? (uint64_t)p->c : concretize(s, p);
    if (!a) return;
    uint64_t id = a >> SLOT;
    const Obj *o = id >= FIRSTID && id < s.mem.next ? s.mem.get((uint32_t)id) : nullptr;
    if (!o || o->kind != OK_HEAP) fail(s, "memory", "invalid-free");
    if (!o->alive) fail(s, "memory", "double-free");
    if (a != o->base) fail(s, "memory", "invalid-free");
    s.mem.kill((uint32_t)id);
  }

  // ---- helpers for operations --------------------------------------------
  static Ref icmp(CmpInst::Predicate p, Ref a, Ref b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    case CmpInst::ICMP_SLE: return mkSle(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    default: return mkSle(b, a);
    }
  }
  static Ref fcmp(CmpInst::Predicate p, Ref a, Ref b) {
    auto uno = [&] { return mkFCmp(K_FUNO, a, b); };
    switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse();
    case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return mkFCmp(K_FEQ, a, b);
    case CmpInst::FCMP_OLT: return mkFCmp(K_FLT, a, b);
    case CmpInst::FCMP_OLE: return mkFCmp(K_FLE, a, b);
    case CmpInst::FCMP_OGT: return mkFCmp(K_FLT, b, a);
    case CmpInst::FCMP_OGE: return mkFCmp(K_FLE, b, a);
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(uno()), mkNot(mkFCmp(K_FEQ, a, b)));
    case CmpInst::FCMP_ORD: return mkNot(uno());
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return mkOr(uno(), mkFCmp(K_FEQ, a, b));
    case CmpInst::FCMP_ULT: return mkNot(mkFCmp(K_FLE, b, a));
    case CmpInst::FCMP_ULE: return mkNot(mkFCmp(K_FLT, b, a));
    case CmpInst::FCMP_UGT: return mkNot(mkFCmp(K_FLE, a, b));
    case CmpInst::FCMP_UGE: return mkNot(mkFCmp(K_FLT, a, b));
    default: return mkNot(mkFCmp(K_FEQ, a, b)); // UNE
    }
  }
  template <class F> static Val map1(const Val &a, F f) {
    if (!a.agg) return Val(f(a.n));
    std::vector<Val> v; for (auto &x : *a.agg) v.push_back(map1(x, f)); return mkAgg(v);
  }
  template <class F> static Val map2(const Val &a, const Val &b, F f) {
    if (!a.agg) return Val(f(a.n, b.n));
    std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(map2((*a.agg)[i], (*b.agg)[i], f)); return mkAgg(v);
  }
  Val binop(State &s, unsigned op, const Val &A, const Val &B) {
    return map2(A, B, [&](Ref a, Ref b) -> Ref {
      switch (op) {
      case Instruction::Add: return mkAdd(a, b);
      case Instruction::Sub: return mkSub(a, b);
      case Instruction::Mul: return mkMul(a, b);
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        if (!branch(s, mkNot(mkEq(b, mkC(b->w, 0))))) fail(s, "arith", "division-by-zero");
        b = known(s, b);
        return op == Instruction::UDiv ? mkUDiv(a, b) : op == Instruction::SDiv ? mkSDiv(a, b) : op == Instruction::URem ? mkURem(a, b) : mkSRem(a, b);
      }
      case Instruction::And: return mkAnd(a, b);
      case Instruction::Or: return mkOr(a, b);
      case Instruction::Xor: return mkXor(a, b);
      case Instruction::Shl: return mkShl(a, known(s, b));
      case Instruction::LShr: return mkLShr(a, known(s, b));
      case Instruction::AShr: return mkAShr(a, known(s, b));
      case Instruction::FAdd: return mkFBin(K_FADD, a, b);
      case Instruction::FSub: return mkFBin(K_FSUB, a, b);
      case Instruction::FMul: return mkFBin(K_FMUL, a, b);
      case Instruction::FDiv: return mkFBin(K_FDIV, a, b);
      case Instruction::FRem: return mkUF(ufIndex("fmod"), a, b);
      default: unsupported(s, "binop"); }
    });
  }

  // concrete C string
  std::string cstr(State &s, Ref p) {
    std::string r;
    for (uint64_t i = 0;; i++) {
      Ref b = readAt(s, mkAdd(p, mkC(64, i)), 1);
      uint64_t c = isC(b) ? (uint64_t)b->c : concretize(s, b);
      if (!c) return r;
      r += (char)c;
      if (r.size() > 4096) unsupported(s, "long string");
    }
  }
  void copyMem(State &s, Ref dst, Ref src, uint64_t n, bool overlapOK) {
    if (!n) return;
    Loc d = resolve(s, dst, n, true), r = resolve(s, src, n, false);
    if (!d.conc) { d.off = concretize(s, d.offR); d.conc = true; }
    if (!r.conc) { r.off = concretize(s, r.offR); r.conc = true; }
    if (!overlapOK && d.id == r.id && d.off != r.off && d.off < r.off + n && r.off < d.off + n) fail(s, "memory", "memcpy-overlap");
    const Obj *so = s.mem.get(r.id);
    std::vector<uint8_t> b(so->b.begin() + r.off, so->b.begin() + r.off + n), st(so->st.begin() + r.off, so->st.begin() + r.off + n);
    std::vector<std::pair<uint32_t, Ref>> sy;
    for (uint64_t i = 0; i < n; i++) if (st[i] == 2) sy.push_back({(uint32_t)i, so->sym.find((uint32_t)(r.off + i))->second});
    Obj *o = s.mem.mut(d.id);
    for (uint64_t i = 0; i < n; i++) { if (o->st[d.off + i] == 2) o->sym.erase((uint32_t)(d.off + i)); o->b[d.off + i] = b[i]; o->st[d.off + i] = st[i]; }
    for (auto &p : sy) o->sym[(uint32_t)(d.off + p.first)] = p.second;
  }
  void setMem(State &s, Ref dst, Ref c, uint64_t n) {
    if (!n) return;
    Loc d = resolve(s, dst, n, true);
    if (!d.conc) { d.off = concretize(s, d.offR); d.conc = true; }
    Ref b = mkExtract(c, 0, 8);
    Obj *o = s.mem.mut(d.id);
    for (uint64_t i = 0; i < n; i++) setByte(o, d.off + i, b);
  }
  // lexicographic comparison without forking; str: stop at NUL
  Ref cmpMem(State &s, Ref a, Ref b, uint64_t n, bool str) {
    struct Step { Ref x, y; };
    std::vector<Step> steps;
    Ref go = mkTrue();
    for (uint64_t i = 0; i < n; i++) {
      // would the real function read byte i?
      Ref pa = mkAdd(a, mkC(64, i)), pb = mkAdd(b, mkC(64, i));
      if (go == mkFalse()) break;
      Ref ka = known(s, pa), kb = known(s, pb);
      bool bad = (isC(ka) && !validAt(s, (uint64_t)ka->c, 1)) || (isC(kb) && !validAt(s, (uint64_t)kb->c, 1));
      if (bad) {
        ModelP mt, mf;
        int d = decide(s, go, &mt, &mf);
        if (d == 0) break;
        if (d == -1) { report(s, "memory", "compare-out-of-bounds", mt); addPC(s, mkNot(go)); s.model = mf; break; }
        fail(s, "memory", "compare-out-of-bounds");
      }
      Ref x = readAt(s, pa, 1), y = readAt(s, pb, 1);
      steps.push_back({x, y});
      Ref e = mkEq(x, y);
      if (str) e = mkAnd(e, mkNot(mkEq(x, mkC(8, 0))));
      go = known(s, mkAnd(go, known(s, e)));
      if (steps.size() > 20000) unsupported(s, "long compare");
    }
    // zero exactly when no difference precedes the end; otherwise only the sign matters
    Ref r = mkC(32, 0), eqz = mkTrue();
    for (size_t i = steps.size(); i-- > 0;) {
      Ref x = steps[i].x, y = steps[i].y;
      Ref diff = mkSub(mkZExt(x, 32), mkZExt(y, 32));
      Ref e = known(s, mkEq(x, y));
      r = mkIte(e, r, diff);
      eqz = mkAnd(e, str ? mkOr(known(s, mkEq(x, mkC(8, 0))), eqz) : eqz);
    }
    if (isC(r) && isC(eqz)) return eqz == mkTrue() ? mkC(32, 0) : r;
    return mkIte(eqz, mkC(32, 0), mkOr(r, mkC(32, 1)));
  }

#include "calls.inc"

  // ---- one instruction ----------------------------------------------------
  void step(State &s) {
    Frame &f = s.st.back();
    const Instruction *I = f.pc;
    nInstr++;
    s.steps++;
    auto next = [&] { s.st.back().pc = I->getNextNode(); };
    switch (I->getOpcode()) {
    case Instruction::Ret: {
      Val rv;
      if (I->getNumOperands()) rv = V(s, I->getOperand(0));
      const CallBase *cb = f.call;
      popFrame(s);
      if (s.st.empty()) { endOK(s); }
      if (!cb) { endOK(s); }
      setR(s, cb, rv);
      if (auto *inv = dyn_cast<InvokeInst>(cb)) jump(s, inv->getNormalDest());
      else s.st.back().pc = cb->getNextNode();
      return;
    }
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(s, b->getSuccessor(0)); return; }
      Ref c = known(s, R(s, b->getCondition()));
      if (isC(c)) { jump(s, b->getSuccessor(c->c ? 0 : 1)); return; }
      ModelP mt, mf;
      int d = decide(s, c, &mt, &mf);
      if (d >= 0) { jump(s, b->getSuccessor(d ? 0 : 1)); return; }
      auto o = clone(s);
      addPC(*o, mkNot(c)); o->model = mf;
      jump(*o, b->getSuccessor(1));
      work.push_back(std::move(o));
      addPC(s, c); s.model = mt;
      jump(s, b->getSuccessor(0));
      return;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I);
      Ref c = known(s, R(s, sw->getCondition()));
      if (isC(c)) {
        auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), (uint64_t)c->c);
        jump(s, sw->findCaseValue(ci)->getCaseSuccessor());
        return;
      }
      // group by target
      std::map<const BasicBlock *, Ref> tg;
      std::vector<const BasicBlock *> order;
      Ref none = mkTrue();
      for (auto &cs : sw->cases()) {
        Ref e = mkEq(c, cval(cs.getCaseValue()).n);
        none = mkAnd(none, mkNot(e));
        auto it = tg.find(cs.getCaseSuccessor());
        if (it == tg.end()) { tg[cs.getCaseSuccessor()] = e; order.push_back(cs.getCaseSuccessor()); }
        else it->second = mkOr(it->second, e);
      }
      auto *dd = sw->getDefaultDest();
      if (tg.count(dd)) tg[dd] = mkOr(tg[dd], none);
      else { tg[dd] = none; order.push_back(dd); }
      std::vector<StateP> outs;
      for (auto *t : order) {
        ModelP m;
        Ref cond = known(s, tg[t]);
        Res r = sol.check(s.pc, cond, s.model, &m);
        if (r == UNSAT) continue;
        if (r == UNKNOWN) incomplete["solver-unknown-branch"]++;
        auto o = clone(s);
        addPC(*o, cond); o->model = m ? m : s.model;
        jump(*o, t);
        outs.push_back(std::move(o));
      }
      if (outs.empty()) throw EndPath();
      for (size_t i = outs.size(); i-- > 1;) work.push_back(std::move(outs[i]));
      std::swap(s, *outs[0]);
      return;
    }
    case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached");
    case Instruction::Alloca: {
      auto *a = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(a->getAllocatedType());
      if (a->isArrayAllocation()) n *= concretize(s, R(s, a->getArraySize()));
      uint32_t id = s.mem.alloc(n, OK_STACK, I);
      s.st.back().allocas.push_back(id);
      setR(s, I, mkC(64, s.mem.get(id)->base));
      next(); return;
    }
    case Instruction::Load: {
      Val v = loadT(s, R(s, I->getOperand(0)), I->getType());
      setR(s, I, v); next(); return;
    }
    case Instruction::Store: {
      Val v = V(s, I->getOperand(0));
      storeT(s, R(s, I->getOperand(1)), I->getOperand(0)->getType(), v);
      next(); return;
    }
    case Instruction::GetElementPtr: {
      auto *g = cast<GetElementPtrInst>(I);
      if (I->getType()->isVectorTy()) unsupported(s, "vector gep");
      Ref r = R(s, g->getPointerOperand());
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        if (StructType *ST = it.getStructTypeOrNull()) {
          unsigned k = (unsigned)cast<ConstantInt>(it.getOperand())->getZExtValue();
          r = mkAdd(r, mkC(64, DL->getStructLayout(ST)->getElementOffset(k)));
        } else {
          Ref ix = known(s, R(s, it.getOperand()));
          if (ix->w < 64) ix = mkSExt(ix, 64); else if (ix->w > 64) ix = mkExtract(ix, 0, 64);
          r = mkAdd(r, mkMul(ix, mkC(64, it.getSequentialElementStride(*DL))));
        }
      }
      setR(s, I, r); next(); return;
    }
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(I)->getPredicate();
      setR(s, I, map2(V(s, I->getOperand(0)), V(s, I->getOperand(1)), [&](Ref a, Ref b) { return icmp(p, a, b); }));
      next(); return;
    }
    case Instruction::FCmp: {
      auto p = cast<FCmpInst>(I)->getPredicate();
      setR(s, I, map2(V(s, I->getOperand(0)), V(s, I->getOperand(1)), [&](Ref a, Ref b) { return fcmp(p, a, b); }));
      next(); return;
    }
    case Instruction::FNeg: setR(s, I, map1(V(s, I->getOperand(0)), [](Ref a) { return mkFUn(K_FNEG, a); })); next(); return;
    case Instruction::Select: {
      Val c = V(s, I->getOperand(0)), a = V(s, I->getOperand(1)), b = V(s, I->getOperand(2));
      if (c.agg) {
        std::vector<Val> v;
        for (size_t i = 0; i < c.agg->size(); i++) v.push_back(mkIte((*c.agg)[i].n, (*a.agg)[i].n, (*b.agg)[i].n));
        setR(s, I, mkAgg(v));
      } else {
        Ref k = known(s, c.n);
        if (isC(k)) setR(s, I, k->c ? a : b);
        else setR(s, I, map2(a, b, [&](Ref x, Ref y) { return mkIte(k, x, y); }));
      }
      next(); return;
    }
    case Instruction::ZExt: { unsigned w = I->getType()->getScalarSizeInBits(); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkZExt(a, w); })); next(); return; }
    case Instruction::SExt: { unsigned w = I->getType()->getScalarSizeInBits(); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkSExt(a, w); })); next(); return; }
    case Instruction::Trunc: { unsigned w = I->getType()->getScalarSizeInBits(); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkExtract(a, 0, w); })); next(); return; }
    case Instruction::PtrToInt: { unsigned w = I->getType()->getScalarSizeInBits(); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return w < 64 ? mkExtract(a, 0, w) : mkZExt(a, w); })); next(); return; }
    case Instruction::IntToPtr: setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return a->w > 64 ? mkExtract(a, 0, 64) : mkZExt(a, 64); })); next(); return;
    case Instruction::AddrSpaceCast: setR(s, I, V(s, I->getOperand(0))); next(); return;
    case Instruction::BitCast: setR(s, I, bitcast(s, V(s, I->getOperand(0)), I->getOperand(0)->getType(), I->getType())); next(); return;
    case Instruction::SIToFP: { Sort so = sortOf(I->getType()->getScalarType()); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkS2F(known(s, a), so); })); next(); return; }
    case Instruction::UIToFP: { Sort so = sortOf(I->getType()->getScalarType()); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkU2F(known(s, a), so); })); next(); return; }
    case Instruction::FPToSI: { unsigned w = I->getType()->getScalarSizeInBits(); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkF2S(a, w); })); next(); return; }
    case Instruction::FPToUI: { unsigned w = I->getType()->getScalarSizeInBits(); setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkF2U(a, w); })); next(); return; }
    case Instruction::FPExt: case Instruction::FPTrunc: {
      if (I->getType()->getScalarType()->isX86_FP80Ty() || I->getOperand(0)->getType()->getScalarType()->isX86_FP80Ty()) unsupported(s, "x86_fp80");
      Sort so = sortOf(I->getType()->getScalarType());
      setR(s, I, map1(V(s, I->getOperand(0)), [&](Ref a) { return mkFCvt(a, so); })); next(); return;
    }
    case Instruction::ExtractValue: {
      Val v = V(s, I->getOperand(0));
      for (unsigned k : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[k]; v = t; }
      setR(s, I, v); next(); return;
    }
    case Instruction::InsertValue: {
      auto *iv = cast<InsertValueInst>(I);
      Val v = V(s, I->getOperand(0)), e = V(s, I->getOperand(1));
      setR(s, I, insertAgg(v, iv->getIndices(), e)); next(); return;
    }
    case Instruction::ExtractElement: {
      Val v = V(s, I->getOperand(0));
      uint64_t k = concretize(s, R(s, I->getOperand(1)));
      setR(s, I, (*v.agg)[k]); next(); return;
    }
    case Instruction::InsertElement: {
      Val v = V(s, I->getOperand(0)), e = V(s, I->getOperand(1));
      uint64_t k = concretize(s, R(s, I->getOperand(2)));
      std::vector<Val> nv = *v.agg; nv[k] = e;
      setR(s, I, mkAgg(nv)); next(); return;
    }
    case Instruction::ShuffleVector: {
      auto *sv = cast<ShuffleVectorInst>(I);
      Val a = V(s, I->getOperand(0)), b = V(s, I->getOperand(1));
      std::vector<Val> nv;
      for (int k : sv->getShuffleMask()) {
        if (k < 0) nv.push_back((*a.agg)[0]);
        else if ((size_t)k < a.agg->size()) nv.push_back((*a.agg)[k]);
        else nv.push_back((*b.agg)[k - a.agg->size()]);
      }
      setR(s, I, mkAgg(nv)); next(); return;
    }
    case Instruction::Freeze: setR(s, I, V(s, I->getOperand(0))); next(); return;
    case Instruction::Fence: next(); return;
    case Instruction::AtomicRMW: {
      auto *a = cast<AtomicRMWInst>(I);
      Ref p = R(s, a->getPointerOperand()); Ref v = R(s, a->getValOperand());
      Val old = loadT(s, p, I->getType());
      Ref nv = nullptr;
      switch (a->getOperation()) {
      case AtomicRMWInst::Xchg: nv = v; break;
      case AtomicRMWInst::Add: nv = mkAdd(old.n, v); break;
      case AtomicRMWInst::Sub: nv = mkSub(old.n, v); break;
      case AtomicRMWInst::And: nv = mkAnd(old.n, v); break;
      case AtomicRMWInst::Or: nv = mkOr(old.n, v); break;
      default: unsupported(s, "atomicrmw");
      }
      storeT(s, p, I->getType(), nv);
      setR(s, I, old); next(); return;
    }
    case Instruction::AtomicCmpXchg: {
      Ref p = R(s, I->getOperand(0)), c = R(s, I->getOperand(1)), v = R(s, I->getOperand(2));
      Val old = loadT(s, p, I->getOperand(1)->getType());
      Ref e = mkEq(old.n, c);
      storeT(s, p, I->getOperand(1)->getType(), mkIte(e, v, old.n));
      setR(s, I, mkAgg({old, Val(e)})); next(); return;
    }
    case Instruction::LandingPad: {
      setR(s, I, mkAgg({Val(f.exc), Val(mkC(32, f.sel))}));
      next(); return;
    }
    case Instruction::Resume: {
      Val v = V(s, I->getOperand(0));
      uint64_t e = (uint64_t)(*v.agg)[0].n->c;
      // continue unwinding from this frame's caller
      if (s.st.back().f->doesNotThrow()) fail(s, "terminate", "exception leaves a nounwind function");
      if (s.st.size() == 1) fail(s, "terminate", "uncaught exception " + s.excType[e]);
      popFrame(s);
      unwind(s, e);
      return;
    }
    case Instruction::Call: case Instruction::Invoke: call(s, cast<CallBase>(I)); return;
    case Instruction::VAArg: unsupported(s, "va_arg instruction");
    default:
      if (I->isBinaryOp()) {
        Val a = V(s, I->getOperand(0)), b = V(s, I->getOperand(1));
        setR(s, I, binop(s, I->getOpcode(), a, b)); next(); return;
      }
      unsupported(s, I->getOpcodeName());
    }
  }
  static Val insertAgg(const Val &v, ArrayRef<unsigned> ix, const Val &e) {
    if (ix.empty()) return e;
    std::vector<Val> nv = *v.agg;
    nv[ix[0]] = insertAgg(nv[ix[0]], ix.drop_front(), e);
    return mkAgg(nv);
  }
  Ref flatten(State &s, const Val &v, Type *T) {
    if (!v.agg) return v.n->sort == SBV ? v.n : mkF2B(v.n);
    Ref r = nullptr;
    Type *E = cast<FixedVectorType>(T)->getElementType();
    for (auto &x : *v.agg) { Ref p = flatten(s, x, E); r = r ? mkConcat(p, r) : p; }
    return r;
  }
  Val unflatten(Ref r, Type *T) {
    if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      std::vector<Val> v; unsigned w = VT->getElementType()->getScalarSizeInBits();
      for (unsigned i = 0; i < VT->getNumElements(); i++) v.push_back(unflatten(mkExtract(r, i * w, w), VT->getElementType()));
      return mkAgg(v);
    }
    if (T->isDoubleTy()) return mkB2F(r, SF64);
    if (T->isFloatTy()) return mkB2F(r, SF32);
    return r;
  }
  Val bitcast(State &s, const Val &v, Type *from, Type *to) {
    if (from == to || (from->isPointerTy() && to->isPointerTy())) return v;
    if (DL->getTypeSizeInBits(from) > 128) {
      if (from->isVectorTy() && to->isVectorTy() && cast<FixedVectorType>(from)->getNumElements() == cast<FixedVectorType>(to)->getNumElements()) {
        std::vector<Val> r; for (auto &x : *v.agg) r.push_back(bitcast(s, x, cast<FixedVectorType>(from)->getElementType(), cast<FixedVectorType>(to)->getElementType())); return mkAgg(r);
      }
      unsupported(s, "wide bitcast");
    }
    return unflatten(flatten(s, v, from), to);
  }
  [[noreturn]] void endOK(State &s) {
    nPaths++;
    if (pathSamples.size() < 12 && (nPaths <= 4 || nPaths % 97 == 0)) {
      ModelP m = s.model;
      std::string t;
      for (auto &kv : dumpInputs(s, m ? *m : Model())) t += kv.first + "=" + kv.second + " ";
      pathSamples.push_back(t);
    }
    throw EndPath();
  }

  void run(StateP init) {
    work.push_back(std::move(init));
    uint64_t tick = 0;
    while (!work.empty()) {
      StateP cur = std::move(work.back());
      work.pop_back();
      S = cur.get();
      try {
        for (;;) {
          step(*S);
          if ((++tick & 0xff) == 0 && elapsed() > maxTime) { cutTime = true; incomplete["time-limit"] += 1 + work.size(); work.clear(); return; }
          if (S->limit && S->steps > S->limit) fail(*S, "nonterm", "step limit exceeded");
          if (S->steps > stepCap) { // a candidate only: the native replay decides
            if (!incomplete["step-cap"]++) report(*S, "nonterm", "step cap exceeded", S->model);
            throw EndPath();
          }
        }
      } catch (EndPath &) {
        nKilled++;
      } catch (std::exception &e) {
        incomplete[std::string("engine exception: ") + e.what()]++;
      }
      if (maxPaths && nPaths >= maxPaths) { incomplete["path-limit"] += work.size(); work.clear(); return; }
    }
  }
};

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

int main(int argc, char **argv) {
  std::string bc, fn, out;
  Engine E;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--fn") fn = nx();
    else if (a == "--out") out = nx();
    else if (a == "--time") E.maxTime = atof(nx().c_str());
    else if (a == "--qtimeout") E.sol.defTimeout = atoi(nx().c_str());
    else if (a == "--steps") E.stepCap = strtoull(nx().c_str(), 0, 10);
    else if (a == "--real") g_real = true;
    else if (a == "--fold") g_real = g_fold = true;
    else if (a == "--trace") E.trace = true;
    else if (a == "--maxviol") E.maxViol = atoi(nx().c_str());
    else bc = a;
  }
  SMDiagnostic err;
  E.M = parseIRFile(bc, err, E.ctx);
  if (!E.M) { err.print("gsx", errs()); return 2; }
  E.DL = &E.M->getDataLayout();
  E.t0 = std::chrono::steady_clock::now();
  auto s = E.initState();
  Function *F = E.M->getFunction(fn);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no function %s\n", fn.c_str()); return 2; }
  // global constructors, then the harness
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (auto *g = E.M->getNamedGlobal("llvm.global_ctors"))
    if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto &op : ca->operands()) {
        auto *cs = cast<ConstantStruct>(op);
        if (auto *cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cf});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &c : ctors) {
    E.pushFrame(*s, c.second, {}, nullptr);
    E.S = s.get();
    try { for (;;) E.step(*s); } catch (EndPath &) {}
    if (E.work.size()) { fprintf(stderr, "fork in constructor\n"); E.work.clear(); }
    s->st.clear();
  }
  E.nPaths = E.nKilled = 0; E.pathSamples.clear();
  s->steps = 0;
  E.pushFrame(*s, F, {}, nullptr);
  auto emit = [&]() {
  // functions and lines of the repository reached
  std::set<std::string> funcs;
  std::set<std::string> lines;
  for (auto *bb : E.visited)
    for (auto &I : *bb)
      if (I.getDebugLoc())
        for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
          std::string dir = L->getDirectory().str(), f = L->getFilename().str();
          if (f.empty() || f[0] != '/') f = dir + "/" + f;
          if (f.find("/repo/") == std::string::npos && f.find("/ggnss/") == std::string::npos) continue;
          auto *sp = L->getScope()->getSubprogram();
          if (sp) funcs.insert(demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()));
          lines.insert(f.substr(f.rfind('/') + 1) + ":" + std::to_string(L->getLine()));
        }
  std::string j = "{";
  auto num = [&](const char *k, double v) { char b[64]; snprintf(b, sizeof b, "\"%s\": %.17g, ", k, v); j += b; };
  num("paths", E.nPaths); num("forks", E.nForks); num("instructions", E.nInstr);
  num("queries", g_ss.queries); num("sat", g_ss.sat); num("unsat", g_ss.unsat); num("unknown", g_ss.unknown); num("integer_queries", g_ss.lia);
  num("cache_hits", g_ss.cacheHits); num("solver_s", g_ss.time); num("wall_s", E.elapsed());
  num("lines", lines.size());
  j += "\"asserts\": {"; bool first = true;
  for (auto &a : E.asserts) { j += (first ? "" : ", ") + jstr(a.first) + ": [" + std::to_string(a.second[0]) + "," + std::to_string(a.second[1]) + "," + std::to_string(a.second[2]) + "]"; first = false; }
  j += "}, \"reach\": {"; first = true;
  for (auto &a : E.reach) { j += (first ? "" : ", ") + jstr(a.first) + ": " + std::to_string(a.second); first = false; }
  j += "}, \"incomplete\": {"; first = true;
  for (auto &a : E.incomplete) { j += (first ? "" : ", ") + jstr(a.first) + ": " + std::to_string(a.second); first = false; }
  j += "}, \"functions\": ["; first = true;
  for (auto &f : funcs) { j += (first ? "" : ", ") + jstr(f); first = false; }
  j += "], \"samples\": ["; first = true;
  for (auto &f : E.pathSamples) { j += (first ? "" : ", ") + jstr(f); first = false; }
  j += "], \"violations\": ["; first = true;
  for (auto &v : E.violations) {
    j += std::string(first ? "" : ", ") + "{\"kind\": " + jstr(v.kind) + ", \"id\": " + jstr(v.id) + ", \"where\": " + jstr(v.where) + ", \"inputs\": [";
    bool f2 = true;
    for (auto &in : v.inputs) { j += (f2 ? "[" : ", [") + jstr(in.first) + ", " + jstr(in.second) + "]"; f2 = false; }
    j += "]}"; first = false;
  }
  j += "]}\n";
  if (out.empty()) fputs(j.c_str(), stdout);
  else { FILE *fp = fopen(out.c_str(), "w"); fputs(j.c_str(), fp); fclose(fp); }
  fflush(nullptr);
  _exit(0);
  };
  // a query that overruns its own limit must not take what was found before with it
  std::thread([&]() {
    std::this_thread::sleep_for(std::chrono::duration<double>(E.maxTime + 20));
    E.incomplete["time-limit"] += 1 + E.work.size();
    emit();
  }).detach();
  E.run(std::move(s));
  emit();
}
