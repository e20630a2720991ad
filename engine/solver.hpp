// Path-condition solver: one persistent Z3 solver whose scopes mirror the DFS.
#pragma once
#include "core.hpp"

extern z3::context *gctx;
inline z3::context &C() { return *gctx; }
using Clock = std::chrono::steady_clock;
inline double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

struct Stats {
  u64 queries = 0, q_sat = 0, q_unsat = 0, q_unknown = 0; double solver_s = 0;
  u64 modelhits = 0;
  u64 obligations = 0, discharged = 0, trivially = 0, inconclusive = 0;
  u64 paths = 0, instrs = 0, forks = 0, concretized = 0, infeasible = 0;
  u64 memchecks = 0; u64 realeq = 0, realeq_exact = 0;
};
extern Stats S;

enum class R { Sat, Unsat, Unknown };

struct PSolver {
  z3::solver s;
  std::vector<expr> stack;
  unsigned timeout_ms;
  std::optional<z3::model> model;
  PSolver(unsigned t) : s(C(), z3::solver::simple()), timeout_ms(t) { setp(s); }
  void setp(z3::solver &x) { z3::params p(C()); p.set("timeout", timeout_ms); x.set(p); }
  void sync(const std::vector<expr> &pcs) {
    size_t i = 0;
    while (i < stack.size() && i < pcs.size() && z3::eq(stack[i], pcs[i])) i++;
    if (i < stack.size()) { s.pop((unsigned)(stack.size() - i)); stack.resize(i, expr(C())); }
    for (; i < pcs.size(); i++) { s.push(); s.add(pcs[i]); stack.push_back(pcs[i]); }
  }
  R check(const std::vector<expr> &pcs, const std::vector<expr> &extra, bool want_fallback = true) {
    double t0 = now();
    sync(pcs);
    S.queries++;
    s.push();
    for (auto &e : extra) s.add(e);
    R r = R::Unknown;
    model.reset();
    try {
      auto z = s.check();
      if (z == z3::sat) { r = R::Sat; model.emplace(s.get_model()); }
      else if (z == z3::unsat) r = R::Unsat;
    } catch (z3::exception &) {}
    s.pop();
    if (r == R::Unknown && want_fallback) {
      try {
        z3::solver f(C());
        setp(f);
        for (auto &e : pcs) f.add(e);
        for (auto &e : extra) f.add(e);
        auto z = f.check();
        if (z == z3::sat) { r = R::Sat; model.emplace(f.get_model()); }
        else if (z == z3::unsat) r = R::Unsat;
      } catch (z3::exception &) {}
    }
    double dt = now() - t0;
    S.solver_s += dt;
    if (r == R::Sat) S.q_sat++; else if (r == R::Unsat) S.q_unsat++; else S.q_unknown++;
    return r;
  }
};
