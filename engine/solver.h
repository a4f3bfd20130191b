// Z3 back end: feasibility queries over sliced path constraints.
#pragma once
#include "expr.h"
#include <memory>
#include <unordered_map>

namespace sx {

struct SolverStats {
  uint64_t queries = 0;      // queries that reached Z3
  uint64_t sat = 0, unsat = 0, unknown = 0;
  uint64_t cacheHits = 0, modelHits = 0, syntactic = 0;
  double seconds = 0;
  double maxSeconds = 0;
};
extern SolverStats g_ss;

enum class Res { Sat, Unsat, Unknown };

class Solver {
public:
  Solver(unsigned timeoutMs);
  // Is (conj of pc) && cond satisfiable?  m is a model of pc; on Sat, *out is a model of pc && cond.
  Res check(const std::vector<E> &pc, E cond, const Model &m, Model *out);
  // Full check of a conjunction (no slicing)
  Res checkAll(const std::vector<E> &pc, Model *out);
  std::string dumpDir;
private:
  Res solve(const std::vector<E> &cs, Model &out, const VarSet &vars);
  Z3_ast tr(E e);
  Z3_ast trBV(E e);
  Z3_context ctx;
  Z3_solver slv = nullptr;
  unsigned timeout;
  struct Cached { Res r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
  std::unordered_map<uint64_t, std::vector<std::pair<std::vector<uint32_t>, Cached>>> cache;
};

} // namespace sx
