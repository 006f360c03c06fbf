#pragma once
#include "expr.h"
#include <map>
#include <set>
enum SRes { S_UNSAT, S_SAT, S_UNKNOWN };
struct SolverStats { uint64_t queries=0, z3calls=0, sat=0, unsat=0, unknown=0, modelHits=0, cacheHits=0, byteDec=0; double z3time=0; };
extern SolverStats SS;
typedef std::shared_ptr<const Model> ModelP;
ModelP newModel(const Model*base);
// is (cons && cond) satisfiable; base = model of cons; out = model of both
SRes solve(const std::vector<Expr*>&cons, Expr*cond, const ModelP&base, ModelP&out);
void solverInit(unsigned timeoutMs);
