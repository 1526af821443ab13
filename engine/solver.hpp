// SMT back end: independence slicing, query cache, Z3 translation.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <unordered_map>

enum Res { UNSAT, SAT, UNKNOWN };
typedef std::vector<uint64_t> Model;
typedef std::shared_ptr<const Model> ModelP;

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, lia = 0;
  double time = 0;
};
extern SolverStats g_ss;

struct Solver {
  Z3_context ctx;
  Z3_solver inc;
  std::vector<Z3_ast> cache;
  std::unordered_map<std::string, std::pair<Res, std::vector<std::pair<uint32_t, uint64_t>>>> qcache;
  unsigned defTimeout = 20000;
  bool realDetail = false;
  std::map<uint32_t, std::vector<Z3_ast>> side; // side conditions per node id (real mode)
  Solver();
  // is conj(pc) & cond satisfiable?  base: model satisfying pc
  Res check(const std::vector<Ref> &pc, Ref cond, ModelP base, ModelP *out, unsigned timeout_ms = 0);
  Z3_ast tr(Ref r);
  Z3_ast trBool(Ref r);
  Res lia(const std::vector<Ref> &sel, std::vector<std::pair<uint32_t, uint64_t>> &asg, unsigned timeout_ms);
  void sidesOf(Ref r, std::vector<Z3_ast> &out, std::vector<char> &seen);
};
