#pragma once
#include "expr.h"
#include <vector>
enum class SatRes { Unsat, Sat, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double secs = 0, maxsec = 0; };
struct Solver {
  // path condition
  std::vector<Expr*> pc;
  std::vector<uint64_t> model;      // satisfies pc
  SolverStats st;
  uint64_t rlimit = 0;
  void init();
  // is pc && q satisfiable? on Sat fills out (full model for all variables)
  SatRes check(Expr* q, std::vector<uint64_t>& out);
  void add(Expr* c);                // assert c (must hold in model)
  uint64_t ev(Expr* e);             // value under current model
  void setModel(std::vector<uint64_t> m) { model = std::move(m); evalReset(); }
};
extern Solver S;
