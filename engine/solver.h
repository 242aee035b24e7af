// SMT back end: independence slicing, model reuse, query cache, Z3 (QF_BV).
#pragma once
#include "expr.h"
#include <memory>

struct Model {
  std::vector<uint64_t> v;
  uint64_t get(size_t i) const { return i < v.size() ? v[i] : 0; }
};
typedef std::shared_ptr<const Model> ModelP;
// quotient and remainder variables introduced for a division x / c
struct DivDef { E x, c, q, r; };
extern std::vector<DivDef> g_divs;

enum class Res { Unsat, Sat, Unknown };

struct SolverStats {
  uint64_t queries = 0;      // questions asked by the executor
  uint64_t modelHits = 0;    // answered by an already known model
  uint64_t cacheHits = 0;    // answered by the query cache
  uint64_t z3 = 0, sat = 0, unsat = 0, unknown = 0;
  double z3time = 0, maxq = 0;
};
extern SolverStats g_ss;
extern unsigned g_solver_timeout_ms;
extern FILE *g_smt_dump;  // when set, every z3 query is written as SMT-LIB2 with its answer

uint64_t evalModel(E e, const Model &m);
const std::vector<uint32_t> &varsOf(E e);
// satisfiability of pcs && q. base (when non-null) satisfies pcs. On Sat *out is a model of all of them.
Res solve(const std::vector<E> &pcs, E q, ModelP base, ModelP *out);
// substitute undefined variables by fresh ones (used for use-of-uninitialised-value checks)
E renameUndef(E e);
