#pragma once
#include "expr.h"
#include <memory>
enum class Sat { kUnsat, kSat, kUnknown };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0; double maxq = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
extern std::string g_dumpDir;   // when set, queries are dumped as SMT-LIB for cross-checking
extern unsigned g_dumpMax;
// Is (constraints of pc relevant to extra) && extra satisfiable?  base is a model of pc; on SAT *out is a model of pc && extra.
Sat solve(const std::vector<Node*>& pc, Node* extra, const Model& base, Model* out);
