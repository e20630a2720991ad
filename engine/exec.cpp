#include "exec.hpp"

z3::context *gctx; Stats S; Opts O;

static std::string jesc(const std::string &s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r;
}

// ------------------------------------------------------------------ reporting values
static double realToDouble(const expr &e0) {
  expr e = e0.simplify();
  if (e.is_numeral()) {
    std::string s = Z3_get_numeral_decimal_string(C(), e, 30); if (!s.empty() && s.back() == '?') s.pop_back();
    return strtod(s.c_str(), nullptr);
  }
  if (e.is_algebraic()) { std::string s = Z3_get_numeral_decimal_string(C(), e, 30); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }
  return NAN;
}
std::string Engine::fmt(const Val &v, char kind, z3::model *m) {
  char buf[64];
  if (undefish(v)) return "?";
  if (v.k == K::Int) {
    if (kind == 'r') { snprintf(buf, 64, "%.17g", fpv(v)); return buf; }
    snprintf(buf, 64, "%llu", (unsigned long long)v.c); return buf;
  }
  if (v.k == K::Real) {
    auto n = realN(v); expr e = n->den ? n->num / *n->den : n->num;
    if (m) e = m->eval(e, true);
    snprintf(buf, 64, "%.17g", realToDouble(e)); return buf;
  }
  expr e = v.w == 1 ? z3::ite(bl(v), bvnum(1, 1), bvnum(0, 1)) : bv(v);
  if (m) e = m->eval(e, true);
  uint64_t x; if (e.simplify().is_numeral_u64(x)) { snprintf(buf, 64, "%llu", (unsigned long long)x); return buf; }
  return "?";
}
std::vector<std::string> Engine::inputsOf(z3::model *m) {
  std::vector<std::string> r;
  for (auto &i : st->inputs) { std::string nm = i.name; for (auto &c : nm) if (isspace((unsigned char)c)) c = '_'; r.push_back(nm + " " + i.kind + " " + fmt(i.v, i.kind, m)); }
  return r;
}

// Fix every real-mode input to a random value, and the results of the transcendental functions to the values they have there.
void Engine::pinReals(int t, std::vector<expr> &ex) {
  bool integral = t < 12;
  z3::expr_vector from(C()), to(C());
  for (auto &i : st->inputs) if (i.v.k == K::Real) {
    double lo = i.lo, hi = i.hi, x;
    if (integral && hi - lo >= 4) { double span = std::min(hi, 6.0) - std::max(lo, -6.0); x = std::max(lo, -6.0) + std::floor((double)(rnd() % 1000) / 1000.0 * (span + 1)); x = std::min(std::max(std::ceil(x), lo), hi); }
    else x = lo + (hi - lo) * (double)(rnd() % 257) / 256.0;
    if (t >= 16 && i.v.w == 64) x += (hi - lo) * 1e-3 * ((double)(rnd() >> 32) / 4294967296.0 * (x > (lo + hi) / 2 ? -1 : 1)); // not representable in single precision
    expr v = realN(i.v)->num, q = rnum(i.v.w == 32 ? (double)(float)x : x); ex.push_back(v == q); from.push_back(v); to.push_back(q);
  }
  for (auto &[key, pr] : st->real) {
    std::string n = key.substr(0, key.find(':')); if (n == "sqrt" || pr.second.k != K::Real) continue;
    auto a = realN(pr.second); expr e = a->den ? a->num / *a->den : a->num; e = e.substitute(from, to).simplify(); if (!e.is_numeral()) continue;
    double x = realToDouble(e), y;
    if (n == "sin") y = std::sin(x); else if (n == "cos") y = std::cos(x); else if (n == "tan") y = std::tan(x); else if (n == "asin") y = std::asin(x); else if (n == "acos") y = std::acos(x); else if (n == "atan") y = std::atan(x); else if (n == "exp") y = std::exp(x); else if (n == "log") y = std::log(x); else continue;
    if (!std::isfinite(y)) continue;
    double d = 1e-6 * (1 + std::fabs(y)); expr v = realN(pr.first)->num; ex.push_back(v >= rnum(y - d) && v <= rnum(y + d));
  }
}
// The solver gave up on an obligation: look for a counterexample among inputs fixed to small or random values. Finding none proves nothing.
bool Engine::guess(std::vector<expr> &ex) {
  for (int t = 0; t < 10; t++) {
    std::vector<expr> e2 = ex; int n = 0; bool any = false;
    for (auto &i : st->inputs) if (i.v.k == K::Sym && (i.kind == 'u' || i.kind == 'f' || i.kind == 'd')) {
      n++; any = true; if (t & 1 && rnd() % 4 == 0) continue; // one in four left to the solver
      double x = t < 2 ? 1 + n : t < 4 ? (double)(i64)(rnd() % 19) - 9 : t < 6 ? ((double)(i64)(rnd() % 2001) - 1000) / 8 : ((double)(rnd() >> 12) / 4503599627370496.0 - 0.5) * std::pow(2.0, (int)(rnd() % 40) - 16); u64 bits;
      if (i.kind == 'u') bits = t < 4 ? (u64)(i64)x : t < 6 ? rnd() % 1000 : rnd(); else if (i.kind == 'f') { float f = (float)x; u32 b; memcpy(&b, &f, 4); bits = b; } else memcpy(&bits, &x, 8);
      e2.push_back(bv(i.v) == bvnum(bits & (i.v.w >= 64 ? ~0ull : (1ull << i.v.w) - 1), i.v.w));
    }
    if (!any) return false;
    if (solver.check(st->pcs, e2, false) == R::Sat) { ex = e2; return true; }
  }
  return false;
}
// Bit-exact mode: fix the inputs to a value and the library functions to their values there, so that a model is a counterexample of the
// real functions and not of arbitrary ones.
bool Engine::onlyLibm() { if (st->libm.empty()) return false; for (auto &i : st->inputs) if (i.v.k == K::Real) return false; return true; }
bool Engine::pinLibm(int t, std::vector<expr> &ex) {
  static const double edge[] = {0.99999994, -0.99999994, 0.5, -0.5, 1, -1, 0.999, -0.999, 1e-3, -1e-3, 1e-6, 0, 1.5, -1.5, 3, -3, 1.5707963, 3.1415927, 100, -1e4, 1e6, 3e7, -2e9, 1e10, 5e4, 1e15};
  z3::expr_vector from(C()), to(C());
  for (auto &i : st->inputs) if (i.v.k == K::Sym && (i.kind == 'f' || i.kind == 'd')) {
    double x = t < 26 ? edge[t] : t < 44 ? (double)(rnd() >> 12) / 4503599627370496.0 * 2 - 1 : ((double)(rnd() >> 12) / 4503599627370496.0 - 0.5) * 20; u64 bits;
    if (i.kind == 'f') { float f = (float)x; u32 b; memcpy(&b, &f, 4); bits = b; } else memcpy(&bits, &x, 8);
    expr v = bv(i.v), q = bvnum(bits, i.v.w); ex.push_back(v == q); from.push_back(v); to.push_back(q);
  }
  if (!from.size()) return false;
  for (auto &a : st->libm) { // in the order of the calls: arguments that depend on earlier results are known by then
    double v[2]; bool ok = a.args.size() <= 2;
    for (size_t i = 0; ok && i < a.args.size(); i++) { expr e = wrapE(Z3_mk_fpa_to_ieee_bv(C(), a.args[i])).substitute(from, to).simplify(); u64 b; if (!e.is_numeral_u64(b)) { ok = false; break; } if (a.w == 32) { u32 c = (u32)b; float x; memcpy(&x, &c, 4); v[i] = x; } else memcpy(&v[i], &b, 8); }
    if (!ok) continue;
    auto ap = [&](auto x, auto y) -> decltype(x) { const std::string &n = a.n; if (a.args.size() == 2) { if (n == "remainder") return std::remainder(x, y); if (n == "fmod") return std::fmod(x, y); if (n == "atan2") return std::atan2(x, y); if (n == "pow") return std::pow(x, y); if (n == "hypot") return std::hypot(x, y); return NAN; }
      if (n == "sin") return std::sin(x); if (n == "cos") return std::cos(x); if (n == "tan") return std::tan(x); if (n == "asin") return std::asin(x); if (n == "acos") return std::acos(x); if (n == "atan") return std::atan(x); if (n == "exp") return std::exp(x); if (n == "log") return std::log(x); return NAN; };
    u64 r; if (a.w == 32) { float y = ap((float)v[0], (float)v[1]); u32 c; memcpy(&c, &y, 4); r = c; ok = y == y; } else { double y = ap(v[0], v[1]); memcpy(&r, &y, 8); ok = y == y; }
    if (!ok) continue;
    expr q = bvnum(r, a.w); ex.push_back(wrapE(Z3_mk_fpa_to_ieee_bv(C(), a.res)) == q); from.push_back(a.res); to.push_back(wrapE(Z3_mk_fpa_to_fp_bv(C(), q, fpsort(a.w))).simplify());
  }
  return true;
}
// Make a model respect the transcendental functions: starting from the values the solver picked for the results of sin, cos, ...,
// fix the arguments to angles with those results (and the results to the values there), one argument after the other.
bool Engine::alignTrig(std::vector<expr> &ex) {
  std::map<std::string, std::map<std::string, std::pair<Val, Val>>> byArg;
  for (auto &[key, pr] : st->real) { size_t c = key.find(':'); std::string n = key.substr(0, c); if (n == "sqrt" || pr.second.k != K::Real || pr.first.k != K::Real) continue; byArg[key.substr(c)][n] = pr; }
  if (byArg.empty()) return false;
  if (solver.check(st->pcs, ex) != R::Sat) return false;
  for (auto &[arg, fs] : byArg) {
    auto m = *solver.model; auto a = realN(fs.begin()->second.second); expr ae = a->den ? a->num / *a->den : a->num;
    auto get = [&](const char *n) { return realToDouble(m.eval(realN(fs.at(n).first)->num, true)); };
    std::vector<double> xs; double x0 = realToDouble(m.eval(ae, true)); bool trig = fs.count("sin") || fs.count("cos");
    if (fs.count("sin") && fs.count("cos")) xs.push_back(std::atan2(get("sin"), get("cos")));
    else if (fs.count("sin")) { double t = std::asin(std::max(-1.0, std::min(1.0, get("sin")))); xs = {t, M_PI - t}; }
    else if (fs.count("cos")) { double t = std::acos(std::max(-1.0, std::min(1.0, get("cos")))); xs = {t, -t}; }
    else xs.push_back(x0);
    if (fs.count("tan")) { double t = std::atan(get("tan")); xs.insert(xs.begin(), {t, t + M_PI}); for (double d : {1.4, 1.5, 1.3, 1.55, 1.0, 0.3}) { xs.push_back(d); xs.push_back(-d); } }
    if (trig) for (size_t i = 0, n = xs.size(); i < n; i++) { double k = std::round((x0 - xs[i]) / (2 * M_PI)); if (k) xs.push_back(xs[i] + 2 * M_PI * k); xs.push_back(xs[i] + 2 * M_PI); xs.push_back(xs[i] - 2 * M_PI); }
    bool ok = false;
    for (double x : xs) {
      if (fs.begin()->second.second.w == 32) x = (float)x;
      std::vector<expr> e2 = ex; e2.push_back(ae == rnum(x));
      for (auto &[n, pr] : fs) {
        double y; if (n == "sin") y = std::sin(x); else if (n == "cos") y = std::cos(x); else if (n == "tan") y = std::tan(x); else if (n == "asin") y = std::asin(x); else if (n == "acos") y = std::acos(x); else if (n == "atan") y = std::atan(x); else if (n == "exp") y = std::exp(x); else if (n == "log") y = std::log(x); else continue;
        if (!std::isfinite(y)) continue;
        double d = 1e-6 * (1 + std::fabs(y)); expr v = realN(pr.first)->num; e2.push_back(v >= rnum(y - d) && v <= rnum(y + d));
      }
      if (solver.check(st->pcs, e2) == R::Sat) { ex = e2; ok = true; break; }
    }
    if (!ok) return false;
  }
  return true;
}
// Turn the current state (plus extra constraints) into concrete counterexamples.
void Engine::killViolation(const std::string &kind, const std::string &msg, const std::vector<expr> &extra) {
  std::string loc = where(); std::string key = kind + "|" + msg + "|" + loc.substr(0, loc.find(" <- "));
  if (violKeys.count(key)) return;
  std::vector<std::vector<std::string>> cands;
  bool hasReal = false; for (auto &i : st->inputs) if (i.v.k == K::Real) hasReal = true;
  if (hasReal) {
    for (int t = 0; t < 24 && (int)cands.size() < O.cands; t++) {
      std::vector<expr> ex = extra; pinReals(kind == "precision" ? t + 16 : t, ex);
      R r = solver.check(st->pcs, ex, false);
      if (r == R::Sat) { auto m = *solver.model; cands.push_back(inputsOf(&m)); }
    }
  }
  if (hasReal && cands.empty())
    for (int t = 0; t < 4 && (int)cands.size() < O.cands; t++) { // away from the angle zero first
      std::vector<expr> ex = extra; bool any = false; expr h = rnum(0.5);
      for (auto &[key, pr] : st->real) { bool si = !key.compare(0, 4, "sin:"), co = !key.compare(0, 4, "cos:"); if ((!si && !co) || pr.first.k != K::Real) continue; expr v = realN(pr.first)->num; any = true; if (t == 0 && co) ex.push_back(v <= -h); if (t == 1 && si) ex.push_back(v >= h); if (t == 2 && si) ex.push_back(v <= -h); }
      if (t < 3 && !any) continue;
      if (alignTrig(ex)) { auto m = *solver.model; cands.push_back(inputsOf(&m)); }
    }
  if (onlyLibm())
    for (int t = 0; t < 60 && (int)cands.size() < std::max(O.cands, 4); t++) {
      std::vector<expr> ex = extra; if (!pinLibm(t, ex)) break;
      if (solver.check(st->pcs, ex, false) == R::Sat) { auto m = *solver.model; cands.push_back(inputsOf(&m)); }
    }
  if (cands.empty()) {
    R r = solver.check(st->pcs, extra);
    if (r == R::Unsat) return;
    if (r == R::Unknown) { std::vector<expr> ex = extra; if (!guess(ex)) { S.inconclusive++; incon.insert("no model for: " + kind + ": " + msg); return; } }
    auto m = *solver.model; cands.push_back(inputsOf(&m));
  }
  violKeys.insert(key);
  Violation v; v.kind = kind == "check" && onlyLibm() ? "libm" : kind; v.msg = msg; v.loc = loc; v.inputs = cands; v.sched = st->sched;
  viols.push_back(v);
  if ((int)viols.size() >= O.maxviol) { stop = true; stopReason = "violation limit"; }
}

void Engine::check(const Val &c, const std::string &msg) {
  S.obligations++; checks[msg]++;
  if (c.k == K::Int) { if (c.c & 1) { S.discharged++; S.trivially++; return; } killViolation("check", msg, {}); throw PathKill{}; }
  if (undefish(c)) throw Abort{"uninit", "checked condition depends on an uninitialised value: " + msg};
  expr e = bl(c).simplify();
  if (e.is_true()) { S.discharged++; S.trivially++; return; }
  R r;
  bool n; expr se = strip(e, n); auto it = st->known.find(Z3_get_ast_id(C(), se));
  if (it != st->known.end() && it->second != n) { S.discharged++; return; }
  r = solver.check(st->pcs, {!e});
  if (r == R::Unsat) { S.discharged++; return; }
  if (r == R::Unknown && onlyLibm()) { // no verdict over all values of the library functions: at least not for the real ones
    for (int t = 0; t < 60; t++) { std::vector<expr> ex{!e}; if (!pinLibm(t, ex)) break; if (solver.check(st->pcs, ex, false) == R::Sat) { killViolation("check", msg, {!e}); throw PathKill{}; } }
    incon.insert("(open over arbitrary library functions) " + msg); return; }
  if (r == R::Unknown) { std::vector<expr> ex{!e}; if (guess(ex)) killViolation("check", msg, ex); S.inconclusive++; incon.insert(msg); return; }
  killViolation("check", msg, {!e});
  // keep going with the condition assumed, if it can hold
  R q = solver.check(st->pcs, {e});
  if (q != R::Sat) throw PathKill{};
  auto m = solver.model; addPC(*st, e); st->model = m;
}

// ------------------------------------------------------------------ atomics
static bool isAtomicInst(const PInst &in) {
  if (in.op == Instruction::Load) return cast<LoadInst>(in.I)->isAtomic();
  if (in.op == Instruction::Store) return cast<StoreInst>(in.I)->isAtomic();
  return in.op == Instruction::AtomicRMW || in.op == Instruction::AtomicCmpXchg || in.op == Instruction::Fence;
}
static bool isAcq(AtomicOrdering o) { return isAcquireOrStronger(o); }
static bool isRel(AtomicOrdering o) { return isReleaseOrStronger(o); }

bool Engine::atomicOp(const PInst &in) { // returns false if the thread stopped before the operation
  State &s = *st; Frame &f = top(); auto &T = s.th[s.cur];
  u64 addr = 0; bool write = false; AtomicOrdering ord = AtomicOrdering::SequentiallyConsistent; Type *ty = nullptr;
  if (auto *l = dyn_cast<LoadInst>(in.I)) { addr = concretize(s, val(f, in.ops[0])); ord = l->getOrdering(); ty = l->getType(); }
  else if (auto *x = dyn_cast<StoreInst>(in.I)) { addr = concretize(s, val(f, in.ops[1])); ord = x->getOrdering(); write = true; ty = x->getValueOperand()->getType(); }
  else if (auto *r = dyn_cast<AtomicRMWInst>(in.I)) { addr = concretize(s, val(f, in.ops[0])); ord = r->getOrdering(); write = true; ty = r->getType(); }
  else if (auto *c = dyn_cast<AtomicCmpXchgInst>(in.I)) { addr = concretize(s, val(f, in.ops[0])); ord = c->getSuccessOrdering(); write = true; ty = c->getCompareOperand()->getType(); }
  else ord = cast<FenceInst>(in.I)->getOrdering();
  bool sc = ord == AtomicOrdering::SequentiallyConsistent;
  if (s.mt && s.join && !s.go) { T.next = OpInfo{addr ? 1 : 2, addr, write, sc}; return false; }
  s.go = false; T.next = OpInfo{};
  auto rmwVal = [&](AtomicRMWInst *r, const Val &old, const Val &x) -> Val {
    u32 w = twidth(ty);
    switch (r->getOperation()) {
    case AtomicRMWInst::Xchg: return x; case AtomicRMWInst::Add: return binop(Instruction::Add, old, x, w); case AtomicRMWInst::Sub: return binop(Instruction::Sub, old, x, w);
    case AtomicRMWInst::And: return binop(Instruction::And, old, x, w); case AtomicRMWInst::Or: return binop(Instruction::Or, old, x, w); case AtomicRMWInst::Xor: return binop(Instruction::Xor, old, x, w);
    case AtomicRMWInst::UMax: return select1(icmp(CmpInst::ICMP_UGT, old, x), old, x, ty); case AtomicRMWInst::UMin: return select1(icmp(CmpInst::ICMP_ULT, old, x), old, x, ty);
    case AtomicRMWInst::Max: return select1(icmp(CmpInst::ICMP_SGT, old, x), old, x, ty); case AtomicRMWInst::Min: return select1(icmp(CmpInst::ICMP_SLT, old, x), old, x, ty);
    default: throw Unsupported{"atomicrmw kind"};
    }
  };
  if (!s.mt) {
    if (in.op == Instruction::Fence) { f.ip++; return true; }
    if (in.op == Instruction::Load) { setDst(in, load(s, addr, ty)); f.ip++; return true; }
    if (in.op == Instruction::Store) { store(s, addr, val(f, in.ops[0]), ty); f.ip++; return true; }
    Val old = load(s, addr, ty);
    if (auto *r = dyn_cast<AtomicRMWInst>(in.I)) { store(s, addr, rmwVal(r, old, val(f, in.ops[1])), ty); setDst(in, old); }
    else { bool eq = branchV(s, icmp(CmpInst::ICMP_EQ, old, val(f, in.ops[1]))); if (eq) store(s, addr, val(f, in.ops[2]), ty); std::vector<Val> p{old, Val::I(1, eq)}; setDst(in, mkAgg(2, [&](unsigned i) { return p[i]; })); }
    f.ip++; return true;
  }
  s.sched += "T" + std::to_string(s.cur) + ";";
  if (sc) { joinVC(T.vc, s.scVC); joinView(T.view, s.scView); }
  if (in.op == Instruction::Fence) {
    if (isAcq(ord)) { joinVC(T.vc, T.acqVC); joinView(T.view, T.acqView); }
    if (isRel(ord)) { T.relVC = T.vc; T.relView = T.view; T.vc[s.cur]++; }
    if (sc) { joinVC(s.scVC, T.vc); joinView(s.scView, T.view); }
    f.ip++; return true;
  }
  findObj(s, addr, tsize(ty), write ? "atomic write" : "atomic read");
  auto it = s.aloc.find(addr);
  if (it == s.aloc.end()) { // initialised before the threads started
    ALoc a; a.w = (u32)tsize(ty); Msg m; bool mt = s.mt; s.mt = false; m.v = load(s, addr, ty); s.mt = mt; a.h.push_back(m); it = s.aloc.emplace(addr, a).first;
  }
  auto &L = it->second;
  u32 lo = T.view.count(addr) ? T.view[addr] : 0, last = (u32)L.h.size() - 1;
  auto acquire = [&](State &q, u32 i) {
    auto &TT = q.th[q.cur]; auto &m = q.aloc[addr].h[i];
    TT.view[addr] = std::max(TT.view[addr], i);
    if (isAcq(ord)) { joinVC(TT.vc, m.vc); joinView(TT.view, m.view); } else { joinVC(TT.acqVC, m.vc); joinView(TT.acqView, m.view); }
  };
  auto append = [&](const Val &v, bool rmw, u32 from) {
    u32 ni = (u32)L.h.size(); T.view[addr] = ni;
    Msg m; m.v = v;
    if (isRel(ord)) { m.vc = T.vc; m.view = T.view; } else { m.vc = T.relVC; m.view = T.relView; m.view[addr] = ni; }
    if (rmw) { joinVC(m.vc, L.h[from].vc); joinView(m.view, L.h[from].view); }
    L.h.push_back(m);
    if (isRel(ord)) T.vc[s.cur]++;
    bool mt = s.mt; s.mt = false; store(s, addr, v, ty); s.mt = mt;
    if (sc) { joinVC(s.scVC, T.vc); joinView(s.scView, T.view); }
  };
  if (in.op == Instruction::Load) {
    for (u32 i = lo; i < last; i++) { // stale reads
      State *o = clone(s);
      acquire(*o, i); o->th[o->cur].st.back().r[in.dst] = L.h[i].v; o->th[o->cur].st.back().ip++;
      o->sched += "r" + std::to_string(i) + ";"; push(o);
    }
    acquire(s, last); setDst(in, L.h[last].v); f.ip++;
    if (sc) { joinVC(s.scVC, T.vc); joinView(s.scView, T.view); }
    return true;
  }
  if (in.op == Instruction::Store) { append(val(f, in.ops[0]), false, 0); f.ip++; return true; }
  Val old = L.h[last].v;
  if (auto *r = dyn_cast<AtomicRMWInst>(in.I)) { acquire(s, last); append(rmwVal(r, old, val(f, in.ops[1])), true, last); setDst(in, old); }
  else {
    bool eq = branchV(s, icmp(CmpInst::ICMP_EQ, old, val(f, in.ops[1])));
    acquire(s, last); if (eq) append(val(f, in.ops[2]), true, last);
    std::vector<Val> p{old, Val::I(1, eq)}; setDst(in, mkAgg(2, [&](unsigned i) { return p[i]; }));
  }
  f.ip++; return true;
}

static bool depend(const OpInfo &a, const OpInfo &b) {
  if (a.kind == 2 || b.kind == 2) return true; // fences
  if (a.sc && b.sc) return true;
  return a.addr == b.addr && (a.write || b.write);
}

// Picks the next thread while main waits in xs_join. false: this state is finished/pruned.
bool Engine::schedule() {
  State &s = *st;
  for (size_t t = 1; t < s.th.size(); t++) if (!s.th[t].done && s.th[t].next.kind == 0) { s.cur = (int)t; s.go = false; return true; }
  std::vector<int> en; bool any = false;
  for (size_t t = 1; t < s.th.size(); t++) if (!s.th[t].done) {
    any = true; bool sl = false; for (auto &z : s.sleep) if (z.first == (int)t) sl = true;
    if (!sl) en.push_back((int)t);
  }
  if (!any) { s.join = false; s.cur = 0; for (size_t t = 1; t < s.th.size(); t++) { joinVC(s.th[0].vc, s.th[t].vc); joinView(s.th[0].view, s.th[t].view); } return true; }
  if (en.empty()) return false;
  auto sleep0 = s.sleep;
  auto filt = [&](std::vector<std::pair<int, OpInfo>> z, const OpInfo &op, int t) { std::vector<std::pair<int, OpInfo>> r; for (auto &q : z) if (q.first != t && !depend(q.second, op)) r.push_back(q); return r; };
  // first choice explored here, the others are pushed with the earlier ones asleep
  auto sl = sleep0; std::vector<State *> others;
  for (size_t i = 0; i < en.size(); i++) {
    int t = en[i]; auto mine = filt(sl, s.th[t].next, t);
    if (i == 0) { }
    else { State *o = clone(s); o->cur = t; o->go = true; o->sleep = mine; push(o); }
    sl.push_back({t, s.th[t].next});
  }
  int t = en[0]; s.sleep = filt(sleep0, s.th[t].next, t); s.cur = t; s.go = true;
  return true;
}

// ------------------------------------------------------------------ intrinsics
static u64 popc(u64 x) { return (u64)__builtin_popcountll(x); }

bool Engine::intrin(const PInst &in, Intrinsic::ID id, std::vector<Val> &a, Val &ret) {
  Type *rt = in.I->getType(); State &s = *st;
  auto *cb = cast<CallBase>(in.I);
  auto lane1 = [&](std::function<Val(const Val &, u32)> f) {
    if (auto *v = dyn_cast<FixedVectorType>(rt)) { auto x = a[0]; ret = mkAgg(v->getNumElements(), [&](unsigned i) { return f(aggN(x)->v[i], twidth(v->getElementType())); }); }
    else ret = f(a[0], twidth(rt));
    return true;
  };
  auto lane2 = [&](std::function<Val(const Val &, const Val &, u32)> f) {
    if (auto *v = dyn_cast<FixedVectorType>(rt)) { auto x = a[0], y = a[1]; ret = mkAgg(v->getNumElements(), [&](unsigned i) { return f(aggN(x)->v[i], aggN(y)->v[i], twidth(v->getElementType())); }); }
    else ret = f(a[0], a[1], twidth(rt));
    return true;
  };
  auto FM = [&](const char *n) { return lane1([&](const Val &x, u32 w) { return fmath(n, {x}, w); }); };
  auto FM2 = [&](const char *n) { return lane2([&](const Val &x, const Val &y, u32 w) { return fmath(n, {x, y}, w); }); };
  auto sel = [&](CmpInst::Predicate p) { return lane2([&, p](const Val &x, const Val &y, u32 w) { return select1(icmp(p, x, y), x, y, IntegerType::get(M->getContext(), w)); }); };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
    u64 n = concretize(s, a[2]), d = concretize(s, a[0]), sc = concretize(s, a[1]);
    if (n && id != Intrinsic::memmove && d != sc && d < sc + n && sc < d + n) throw Abort{"memory", "memcpy with overlapping ranges"};
    memcpyOp(d, sc, n); return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    u64 n = concretize(s, a[2]), d = concretize(s, a[0]); std::vector<Cell> c, one; toCells(a[1], 1, one);
    for (u64 i = 0; i < n; i++) c.push_back(one[0]); writeCells(s, d, c); return true;
  }
  case Intrinsic::lifetime_start: {
    u64 p = a[1].c; auto it = s.mem.find(p); if (it != s.mem.end()) { Obj &o = wr(it->second); o.live = true; std::fill(o.m.begin(), o.m.end(), Cell()); if (!o.acc.empty()) o.acc.assign(o.size, Acc()); } return true;
  }
  case Intrinsic::lifetime_end: { u64 p = a[1].c; auto it = s.mem.find(p); if (it != s.mem.end()) { Obj &o = wr(it->second); o.live = false; } return true; }
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::x86_avx_vzeroupper:
    if (!rt->isVoidTy()) ret = zeroOf(rt); return true;
  case Intrinsic::assume: {
    if (a[0].isInt() && a[0].c == 1) return true;
    if (!branchV(s, a[0])) throw Abort{"ub", "an assumption given to the compiler ([[assume]]/__builtin_assume) does not hold"};
    return true;
  }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation:
    ret = a[0]; return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: throw Abort{"trap", "execution reaches a trap"};
  case Intrinsic::is_constant: ret = Val::I(1, 0); return true;
  case Intrinsic::objectsize: ret = Val::I(twidth(rt), a[1].c ? 0 : ~0ull); return true;
  case Intrinsic::stacksave: ret = Val::I(64, 0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::returnaddress: case Intrinsic::frameaddress: ret = Val::I(64, 0); return true;
  case Intrinsic::eh_typeid_for: ret = Val::I(32, a[0].c ? tiId(a[0].c) : 0x7fffffff); return true;
  case Intrinsic::ctpop: return lane1([&](const Val &x, u32 w) { if (undefish(x)) return Val::U(w); if (x.isInt()) return Val::I(w, popc(x.c)); expr r = bvnum(0, w); for (u32 i = 0; i < w; i++) { expr b = bv(x).extract(i, i); r = r + (w > 1 ? z3::zext(b, w - 1) : b); } return mkSym(r.simplify(), w); });
  case Intrinsic::ctlz: case Intrinsic::cttz: {
    bool lz = id == Intrinsic::ctlz; bool zp = a[1].c;
    return lane1([&](const Val &x, u32 w) {
      if (undefish(x)) return Val::U(w);
      if (x.isInt()) { if (!x.c) return zp ? Val::U(w) : Val::I(w, w); return Val::I(w, lz ? (u64)__builtin_clzll(x.c) - (64 - w) : (u64)__builtin_ctzll(x.c)); }
      if (zp && branch(s, bv(x) == bvnum(0, w))) return Val::U(w);
      expr r = bvnum(w, w);
      for (u32 j = 0; j < w; j++) { u32 i = lz ? j : w - 1 - j; r = z3::ite(bv(x).extract(i, i) == bvnum(1, 1), bvnum(lz ? w - 1 - i : i, w), r); }
      return mkSym(r.simplify(), w);
    });
  }
  case Intrinsic::bswap: return lane1([&](const Val &x, u32 w) { std::vector<Cell> c; toCells(x, w / 8, c); std::reverse(c.begin(), c.end()); return mixVal(c, w); });
  case Intrinsic::bitreverse: return lane1([&](const Val &x, u32 w) { if (undefish(x)) return Val::U(w); if (x.isInt()) { u64 r = 0; for (u32 i = 0; i < w; i++) if (x.c >> i & 1) r |= 1ull << (w - 1 - i); return Val::I(w, r); } expr r = bv(x).extract(0, 0); for (u32 i = 1; i < w; i++) r = z3::concat(r, bv(x).extract(i, i)); return mkSym(r.simplify(), w); });
  case Intrinsic::fshl: case Intrinsic::fshr: {
    u32 w = twidth(rt); if (undefish(a[0]) || undefish(a[1]) || undefish(a[2])) { ret = Val::U(w); return true; }
    u64 sh = concretize(s, a[2]) % w; if (w > 64) throw Unsupported{"wide fsh"};
    expr r = id == Intrinsic::fshl ? (sh ? (z3::shl(bv(a[0]), bvnum(sh, w)) | z3::lshr(bv(a[1]), bvnum(w - sh, w))) : bv(a[0])) : (sh ? (z3::shl(bv(a[0]), bvnum(w - sh, w)) | z3::lshr(bv(a[1]), bvnum(sh, w))) : bv(a[1]));
    ret = mkSym(r.simplify(), w); return true;
  }
  case Intrinsic::abs: return lane1([&](const Val &x, u32 w) { return select1(icmp(CmpInst::ICMP_SLT, x, Val::I(w, 0)), binop(Instruction::Sub, Val::I(w, 0), x, w), x, IntegerType::get(M->getContext(), w)); });
  case Intrinsic::smax: return sel(CmpInst::ICMP_SGT); case Intrinsic::smin: return sel(CmpInst::ICMP_SLT);
  case Intrinsic::umax: return sel(CmpInst::ICMP_UGT); case Intrinsic::umin: return sel(CmpInst::ICMP_ULT);
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    u32 w = a[0].w; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
    Val r = binop(op, a[0], a[1], w); Val o;
    if (undefish(r)) o = Val::U(1);
    else {
      u32 W = op == Instruction::Mul ? 2 * w : w + 1;
      auto ext = [&](const Val &x) { expr e = bv(x); return sg ? z3::sext(e, W - w) : z3::zext(e, W - w); };
      expr x = ext(a[0]), y = ext(a[1]); expr big = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
      o = mkSym((big != ext(r)).simplify(), 1);
    }
    std::vector<Val> p{r, o}; ret = mkAgg(2, [&](unsigned i) { return p[i]; }); return true;
  }
  case Intrinsic::uadd_sat: return lane2([&](const Val &x, const Val &y, u32 w) { Val r = binop(Instruction::Add, x, y, w); return select1(icmp(CmpInst::ICMP_ULT, r, x), Val::I(w, ~0ull), r, IntegerType::get(M->getContext(), w)); });
  case Intrinsic::usub_sat: return lane2([&](const Val &x, const Val &y, u32 w) { return select1(icmp(CmpInst::ICMP_UGT, x, y), binop(Instruction::Sub, x, y, w), Val::I(w, 0), IntegerType::get(M->getContext(), w)); });
  case Intrinsic::fabs: return FM("fabs"); case Intrinsic::sqrt: return FM("sqrt"); case Intrinsic::floor: return FM("floor"); case Intrinsic::ceil: return FM("ceil"); case Intrinsic::trunc: return FM("trunc");
  case Intrinsic::round: return FM("round"); case Intrinsic::rint: return FM("rint"); case Intrinsic::nearbyint: return FM("nearbyint"); case Intrinsic::roundeven: return FM("roundeven");
  case Intrinsic::sin: return FM("sin"); case Intrinsic::cos: return FM("cos"); case Intrinsic::exp: return FM("exp"); case Intrinsic::exp2: return FM("exp2"); case Intrinsic::log: return FM("log"); case Intrinsic::log2: return FM("log2"); case Intrinsic::log10: return FM("log10");
  case Intrinsic::copysign: return FM2("copysign"); case Intrinsic::minnum: case Intrinsic::minimum: return FM2("fmin"); case Intrinsic::maxnum: case Intrinsic::maximum: return FM2("fmax"); case Intrinsic::pow: return FM2("pow");
  case Intrinsic::powi: { i64 e = (i64)(int32_t)concretize(s, a[1]); Val r = fpc(1, twidth(rt)); for (i64 i = 0; i < std::llabs(e); i++) r = fbin(Instruction::FMul, r, a[0], twidth(rt)); if (e < 0) r = fbin(Instruction::FDiv, fpc(1, twidth(rt)), r, twidth(rt)); ret = r; return true; }
  case Intrinsic::fma: case Intrinsic::fmuladd:
    if (auto *v = dyn_cast<FixedVectorType>(rt)) { ret = mkAgg(v->getNumElements(), [&](unsigned i) { return fmath("fma", {aggN(a[0])->v[i], aggN(a[1])->v[i], aggN(a[2])->v[i]}, twidth(v->getElementType())); }); }
    else ret = fmath("fma", {a[0], a[1], a[2]}, twidth(rt));
    return true;
  case Intrinsic::is_fpclass: {
    if (undefish(a[0])) { ret = Val::U(1); return true; }
    u64 m = a[1].c;
    if (a[0].k == K::Real) { // finite; treat as normal or zero
      Val z = fcmp(CmpInst::FCMP_OEQ, a[0], fpc(0, a[0].w)), neg = fcmp(CmpInst::FCMP_OLT, a[0], fpc(0, a[0].w));
      bool zz = branchV(s, z), nn = branchV(s, neg); u64 cls = zz ? 0x40 : nn ? 0x8 : 0x100; ret = Val::I(1, (m & cls) != 0); return true; }
    expr x = toFp(a[0]); expr r = C().bool_val(false);
    expr neg = wrapE(Z3_mk_fpa_is_negative(C(), x));
    expr nan = wrapE(Z3_mk_fpa_is_nan(C(), x)), inf = wrapE(Z3_mk_fpa_is_infinite(C(), x)), nor = wrapE(Z3_mk_fpa_is_normal(C(), x)), sub = wrapE(Z3_mk_fpa_is_subnormal(C(), x)), ze = wrapE(Z3_mk_fpa_is_zero(C(), x));
    if ((m & 3) == 3) r = r || nan; else if (m & 3) throw Unsupported{"is_fpclass snan/qnan"};
    if (m & 4) r = r || (inf && neg); if (m & 8) r = r || (nor && neg); if (m & 0x10) r = r || (sub && neg); if (m & 0x20) r = r || (ze && neg);
    if (m & 0x40) r = r || (ze && !neg); if (m & 0x80) r = r || (sub && !neg); if (m & 0x100) r = r || (nor && !neg); if (m & 0x200) r = r || (inf && !neg);
    ret = mkSym(r.simplify(), 1); return true;
  }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
    unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::Xor;
    auto &v = aggN(a[0])->v; Val r = v[0]; for (size_t i = 1; i < v.size(); i++) r = binop(op, r, v[i], v[0].w); ret = r; return true;
  }
  case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
    auto &v = aggN(a[1])->v; Val r = a[0]; for (auto &x : v) r = fbin(id == Intrinsic::vector_reduce_fadd ? Instruction::FAdd : Instruction::FMul, r, x, twidth(rt)); ret = r; return true;
  }
  default: break;
  }
  // x86
  std::string n = cb->getCalledFunction()->getName().str();
  auto agg = [&](const Val &v) -> std::vector<Val> & { return aggN(v)->v; };
  auto msb = [&](const Val &v) { if (undefish(v)) return Val::U(1); if (v.isInt()) return Val::I(1, v.c >> (v.w - 1)); return mkSym((bv(v).extract(v.w - 1, v.w - 1) == bvnum(1, 1)).simplify(), 1); };
  if (n.find("pmovmskb") != std::string::npos || n.find("movmsk.p") != std::string::npos) {
    auto &v = agg(a[0]); Val bits = mkAgg(v.size(), [&](unsigned i) { return msb(v[i]); });
    for (auto &b : agg(bits)) if (undefish(b)) { ret = Val::U(32); return true; }
    Val p = packBits(bits, (u32)v.size()); ret = v.size() < 32 ? cast1(Instruction::ZExt, p, IntegerType::get(M->getContext(), (unsigned)v.size()), rt) : p; return true;
  }
  if (n == "llvm.x86.ssse3.pshuf.b.128" || n == "llvm.x86.avx2.pshuf.b") {
    auto &v = agg(a[0]), &m = agg(a[1]);
    ret = mkAgg(v.size(), [&](unsigned i) { u64 k = concretize(s, m[i]); if (k & 0x80) return Val::I(8, 0); return v[(i & ~15u) + (k & 15)]; }); return true;
  }
  if (n == "llvm.x86.avx2.permd" || n == "llvm.x86.avx2.permps") { auto &v = agg(a[0]), &m = agg(a[1]); ret = mkAgg(8, [&](unsigned i) { return v[concretize(s, m[i]) & 7]; }); return true; }
  if (n == "llvm.x86.sse41.pblendvb" || n == "llvm.x86.avx2.pblendvb" || n.find("blendv.p") != std::string::npos) {
    auto &x = agg(a[0]), &y = agg(a[1]), &m = agg(a[2]); Type *et = cast<FixedVectorType>(rt)->getElementType();
    ret = mkAgg(x.size(), [&](unsigned i) { return select1(msb(m[i]), y[i], x[i], et); }); return true;
  }
  if (n.find("ptestz") != std::string::npos || n.find("ptestc") != std::string::npos || n.find("ptest.z") != std::string::npos || n == "llvm.x86.avx.ptestz.256") {
    bool cc = n.find("testc") != std::string::npos; auto &x = agg(a[0]), &y = agg(a[1]); Val acc = Val::I(x[0].w, 0); u32 w = x[0].w;
    for (size_t i = 0; i < x.size(); i++) { Val q = cc ? binop(Instruction::Xor, x[i], Val::I(w, ~0ull), w) : x[i]; acc = binop(Instruction::Or, acc, binop(Instruction::And, q, y[i], w), w); }
    Val b = icmp(CmpInst::ICMP_EQ, acc, Val::I(w, 0)); ret = cast1(Instruction::ZExt, b, IntegerType::get(M->getContext(), 1), rt); return true;
  }
  if (n.find("sse3.lddqu") != std::string::npos || n.find("avx.ldu.dq") != std::string::npos || n.find(".ldu.") != std::string::npos) { ret = load(s, concretize(s, a[0]), rt); return true; }
  if (n == "llvm.x86.sse41.dpps") {
    u64 imm = a[2].c; auto &x = agg(a[0]), &y = agg(a[1]); Val sum = fpc(0, 32);
    for (int i = 0; i < 4; i++) if (imm >> (4 + i) & 1) sum = fbin(Instruction::FAdd, sum, fbin(Instruction::FMul, x[i], y[i], 32), 32);
    ret = mkAgg(4, [&](unsigned i) { return (imm >> i & 1) ? sum : fpc(0, 32); }); return true;
  }
  if (n == "llvm.x86.sse3.hadd.ps" || n == "llvm.x86.sse3.hadd.pd") { auto &x = agg(a[0]), &y = agg(a[1]); u32 h = x.size() / 2; ret = mkAgg(x.size(), [&](unsigned i) { auto &q = i < h ? x : y; unsigned j = (i % h) * 2; return fbin(Instruction::FAdd, q[j], q[j + 1], q[j].w); }); return true; }
  throw Unsupported{"intrinsic " + n};
}

// ------------------------------------------------------------------ external functions
bool Engine::extCall(const PInst &in, const std::string &name, std::vector<Val> &a, Val &ret) {
  State &s = *st; Type *rt = in.I->getType();
  auto str = [&](int i) { return cstr(s, concretize(s, a[i])); };
  auto addInput = [&](const std::string &n, char k, const Val &v, double lo, double hi) { s.inputs.push_back({n, k, v, lo, hi}); };
  auto fresh = [&](const std::string &n) { return n + "!" + std::to_string(s.inputs.size()); };
  if (name.compare(0, 3, "xs_") == 0) {
    if (name == "xs_u8" || name == "xs_u16" || name == "xs_u32" || name == "xs_u64") {
      std::string n = str(0); u32 w = (u32)atoi(name.c_str() + 4); if (name == "xs_u8") w = 8;
      ret = mkSym(C().bv_const(fresh(n).c_str(), w), w); addInput(n, 'u', ret, 0, 0); return true;
    }
    if (name == "xs_f32" || name == "xs_f64") { std::string n = str(0); u32 w = name == "xs_f32" ? 32 : 64; ret = mkSym(C().bv_const(fresh(n).c_str(), w), w); addInput(n, w == 32 ? 'f' : 'd', ret, 0, 0); return true; }
    if (name == "xs_r32" || name == "xs_r64") {
      std::string n = str(0); u32 w = name == "xs_r32" ? 32 : 64; double lo = fpv(a[1]), hi = fpv(a[2]);
      expr v = C().real_const(fresh(n).c_str());
      ret = mkReal(v, std::nullopt, std::max(std::fabs(lo), std::fabs(hi)), 0, true, w, 255, false);
      addPC(s, v >= rnum(lo)); addPC(s, v <= rnum(hi)); s.model.reset();
      addInput(n, 'r', ret, lo, hi); return true;
    }
    if (name == "xs_choice") {
      i64 lo = sx(a[0].c, 32), hi = sx(a[1].c, 32); std::string n = str(2);
      if (lo > hi) throw PathKill{};
      for (i64 v = hi; v > lo; v--) {
        State *o = clone(s); Frame &f = o->th[o->cur].st.back(); f.r[in.dst] = Val::I(32, (u64)v); o->inputs.push_back({n, 'u', Val::I(32, (u64)v), 0, 0});
        if (in.op == Instruction::Invoke) { jump(f, in.b0); } else f.ip++;
        push(o);
      }
      ret = Val::I(32, (u64)lo); addInput(n, 'u', ret, 0, 0); return true;
    }
    if (name == "xs_assume") {
      Val c = a[0]; if (c.w != 1) c = icmp(CmpInst::ICMP_NE, c, Val::I(c.w, 0));
      if (c.isInt()) { if (!c.c) throw PathKill{}; return true; }
      expr e = bl(c); if (s.model && evalB(*s.model, e) == 1) { addPC(s, e); return true; }
      R r = solver.check(s.pcs, {e}); if (r == R::Unsat) throw PathKill{};
      addPC(s, e); if (r == R::Sat) s.model = solver.model; else s.model.reset(); return true;
    }
    if (name == "xs_check") { Val c = a[0]; if (c.w != 1) c = icmp(CmpInst::ICMP_NE, c, Val::I(c.w, 0)); check(c, str(1)); return true; }
    if (name == "xs_reach") { s.reached.push_back(str(0)); return true; }
    if (name == "xs_obs_u64") { std::string l = str(0); s.obs.push_back({l, a[1]}); return true; }
    if (name == "xs_obs_f") { std::string l = str(0); s.obs.push_back({l, a[1]}); return true; }
    if (name == "xs_same_f32" || name == "xs_same_f64") { // identical IEEE result: same value or both NaN
      const Val &x = a[0], &y = a[1];
      if (x.k == K::Int && y.k == K::Int) { double p = fpv(x), q = fpv(y); ret = Val::I(1, x.c == y.c || (std::isnan(p) && std::isnan(q))); return true; }
      if (x.k == K::Real || y.k == K::Real) { ret = fcmp(CmpInst::FCMP_OEQ, x, y); return true; }
      if (undefish(x) || undefish(y)) { ret = Val::U(1); return true; }
      ret = mkSym((toFp(x) == toFp(y)).simplify(), 1); return true; // SMT equality: +0 != -0, NaN == NaN
    }
    if (name == "xs_approx_f32" || name == "xs_approx_f64" || name == "xs_approx_ld") { int need = name == "xs_approx_f32" ? 0 : name == "xs_approx_f64" ? 53 : 64; for (int i = 0; i < 2; i++) if (a[i].k == K::Real && realN(a[i])->prec < need) { S.obligations++; killViolation("precision", need == 53 ? "a double result went through a single-precision step" : "a long double result went through a step of less precision", {}); } ret = fcmp(CmpInst::FCMP_OEQ, a[0], a[1]); return true; }
    if (name == "xs_malloc") { u64 n = concretize(s, a[0]), al = concretize(s, a[1]); ret = Val::I(64, alloc(s, n, al, OK::Heap, "heap")); return true; }
    if (name == "xs_free") { u64 p = concretize(s, a[0]); i64 n = (i64)concretize(s, a[1]); freeHeap(s, p, n); return true; }
    if (name == "xs_live_heap") { ret = Val::I(64, s.liveheap); return true; }
    if (name == "xs_alloc_budget") { s.budget = (i64)concretize(s, a[0]); return true; }
    if (name == "xs_is_symbolic") { ret = Val::I(32, 1); return true; }
    if (name == "xs_fail") { killViolation("check", str(0), {}); throw PathKill{}; }
    if (name == "xs_stop_path") { throw PathKill{}; }
    if (name == "xs_known_model") { ret = Val::I(32, 1); return true; }
    if (name == "xs_thread") {
      if (!s.mt) { s.mt = true; s.th[0].vc.assign(1, 1); }
      int t = (int)s.th.size(); u64 fn = concretize(s, a[0]); auto it = faddr.find(fn); if (it == faddr.end()) throw Unsupported{"thread fn"};
      int cur = s.cur; s.th.emplace_back(); Thread &T = s.th[t]; T.started = true; T.vc = s.th[cur].vc; T.vc.resize(t + 1); T.vc[t] = 1; T.view = s.th[cur].view; s.th[cur].vc[cur]++;
      s.cur = t; pushFrame(prep(it->second), {a[1]}, nullptr); s.cur = cur; return true;
    }
    if (name == "xs_join") {
      bool all = true; for (size_t t = 1; t < s.th.size(); t++) if (!s.th[t].done) all = false;
      if (all) return true;
      s.join = true; s.cur = 0; return false; // re-executed once every thread is done
    }
    throw Unsupported{"xs function " + name};
  }
  // C++ runtime
  if (name == "__cxa_allocate_exception") { ret = Val::I(64, alloc(s, concretize(s, a[0]), 16, OK::Stack, "exception object")); return true; }
  if (name == "__cxa_free_exception") return true;
  if (name == "__cxa_throw") { throwNew(a[0].c, a[1].c, a[2].c); return false; }
  if (name == "__cxa_begin_catch") {
    auto &T = s.th[s.cur]; u64 o = a[0].c; auto &e = s.excs[o]; if (e.handlers < 0) e.handlers = -e.handlers; e.handlers++; e.rethrown = false; T.caught.push_back(o); T.inflight = 0; ret = Val::I(64, o); return true;
  }
  if (name == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
  if (name == "__cxa_end_catch") {
    auto &T = s.th[s.cur]; if (T.caught.empty()) return true; u64 o = T.caught.back(); T.caught.pop_back(); auto &e = s.excs[o];
    if (--e.handlers == 0 && !e.rethrown) {
      u64 d = e.dtor; s.excs.erase(o);
      if (d) { auto it = faddr.find(d); if (it != faddr.end() && !it->second->isDeclaration()) { pushFrame(prep(it->second), {Val::I(64, o)}, &in); return false; } }
    }
    return true;
  }
  if (name == "__cxa_rethrow") { auto &T = s.th[s.cur]; if (T.caught.empty()) throw Abort{"terminate", "rethrow without an exception"}; u64 o = T.caught.back(); s.excs[o].rethrown = true; T.inflight = o; unwind(); return false; }
  if (name == "__cxa_pure_virtual" || name == "_ZSt9terminatev" || name == "abort" || name == "__cxa_call_terminate" || name == "__cxa_call_unexpected" || name == "exit" || name == "_exit") throw Abort{"terminate", "program terminates (" + name + ")"};
  if (name == "__assert_fail" || name == "__assert") { throw Abort{"assert", "assertion fails: " + str(0)}; }
  if (name == "_ZSt21__glibcxx_assert_failPKciS0_S0_") { throw Abort{"assert", "libstdc++ assertion fails: " + str(3)}; }
  if (name == "__cxa_guard_acquire") { Val v = load(s, a[0].c, Type::getInt8Ty(M->getContext())); ret = Val::I(32, v.isInt() && v.c == 0); return true; }
  if (name == "__cxa_guard_release") { store(s, a[0].c, Val::I(8, 1), Type::getInt8Ty(M->getContext())); return true; }
  if (name == "__cxa_guard_abort") return true;
  if (name == "__cxa_atexit" || name == "atexit") { ret = Val::I(32, 0); return true; }
  if (name == "_ZSt17__throw_bad_allocv" || name == "_ZSt28__throw_bad_array_new_lengthv") { throwStd("_ZTISt9bad_alloc"); return false; }
  if (name == "_ZSt20__throw_length_errorPKc") { throwStd("_ZTISt12length_error"); return false; }
  if (name == "_ZSt20__throw_out_of_rangePKc" || name == "_ZSt24__throw_out_of_range_fmtPKcz") { throwStd("_ZTISt12out_of_range"); return false; }
  if (name == "_ZSt19__throw_logic_errorPKc") { throwStd("_ZTISt11logic_error"); return false; }
  if (name == "_ZSt24__throw_invalid_argumentPKc") { throwStd("_ZTISt16invalid_argument"); return false; }
  if (name == "_ZSt25__throw_bad_function_callv") { throwStd("_ZTISt17bad_function_call"); return false; }
  if (name == "_ZSt16__throw_bad_castv") { throwStd("_ZTISt8bad_cast"); return false; }
  if (name == "_ZSt18uncaught_exceptionv" || name == "_ZSt19uncaught_exceptionsv") { u64 n = 0; for (auto &[o, e] : s.excs) if (e.handlers == 0 || e.rethrown) n++; ret = Val::I(twidth(rt), name.back() == 'v' && name.find("exceptions") == std::string::npos ? n > 0 : n); return true; }
  // memory
  if (name.rfind("_Znw", 0) == 0 || name.rfind("_Zna", 0) == 0) { if (s.budget == 0) { throwStd("_ZTISt9bad_alloc"); return false; } if (s.budget > 0) s.budget--; }
  if (name == "malloc" || name == "_Znwm" || name == "_Znam") { ret = Val::I(64, alloc(s, concretize(s, a[0]), 16, OK::Heap, "heap")); return true; }
  if (name == "_ZnwmSt11align_val_t" || name == "_ZnamSt11align_val_t") { ret = Val::I(64, alloc(s, concretize(s, a[0]), std::max<u64>(16, concretize(s, a[1])), OK::Heap, "heap")); return true; }
  if (name == "aligned_alloc") { ret = Val::I(64, alloc(s, concretize(s, a[1]), std::max<u64>(16, concretize(s, a[0])), OK::Heap, "heap")); return true; }
  if (name == "calloc") { u64 n = concretize(s, a[0]) * concretize(s, a[1]); u64 p = alloc(s, n, 16, OK::Heap, "heap"); std::vector<Cell> c(n, Cell::C(0)); writeCells(s, p, c); ret = Val::I(64, p); return true; }
  if (name == "realloc") {
    u64 p = concretize(s, a[0]), n = concretize(s, a[1]); u64 q = alloc(s, n, 16, OK::Heap, "heap");
    if (p) { auto it = s.mem.find(p); if (it == s.mem.end()) throw Abort{"memory", "realloc of an invalid pointer"}; u64 k = std::min(n, it->second->size); memcpyOp(q, p, k); freeHeap(s, p, -1); }
    ret = Val::I(64, q); return true;
  }
  if (name == "free" || name == "_ZdlPv" || name == "_ZdaPv" || name == "_ZdlPvSt11align_val_t" || name == "_ZdaPvSt11align_val_t") { freeHeap(s, concretize(s, a[0]), -1); return true; }
  if (name == "_ZdlPvm" || name == "_ZdaPvm" || name == "_ZdlPvmSt11align_val_t" || name == "_ZdaPvmSt11align_val_t") { u64 p = concretize(s, a[0]); freeHeap(s, p, (i64)concretize(s, a[1])); return true; }
  if (name == "memcpy" || name == "memmove" || name == "__memcpy_chk" || name == "__memmove_chk") {
    u64 n = concretize(s, a[2]), d = concretize(s, a[0]), sc = concretize(s, a[1]);
    if (n && name.find("memcpy") != std::string::npos && d < sc + n && sc < d + n) throw Abort{"memory", "memcpy with overlapping ranges"};
    memcpyOp(d, sc, n); ret = a[0]; return true;
  }
  if (name == "memset") { u64 n = concretize(s, a[2]), d = concretize(s, a[0]); std::vector<Cell> c, one; toCells(cast1(Instruction::Trunc, a[1], IntegerType::get(M->getContext(), 32), IntegerType::get(M->getContext(), 8)), 1, one); for (u64 i = 0; i < n; i++) c.push_back(one[0]); writeCells(s, d, c); ret = a[0]; return true; }
  if (name == "memcmp" || name == "bcmp" || name == "strncmp" || name == "strcmp") {
    bool isstr = name[0] == 's'; u64 n = name == "strcmp" ? ~0ull : concretize(s, a[2]), p = concretize(s, a[0]), q = concretize(s, a[1]);
    for (u64 i = 0; i < n; i++) {
      std::vector<Cell> x, y; readCells(s, p + i, 1, x); readCells(s, q + i, 1, y);
      Val u = fromCells(&x[0], 1, 8), v = fromCells(&y[0], 1, 8);
      if (branchV(s, icmp(CmpInst::ICMP_NE, u, v))) { bool lt = branchV(s, icmp(CmpInst::ICMP_ULT, u, v)); ret = Val::I(32, lt ? ~0ull : 1); return true; }
      if (isstr && branchV(s, icmp(CmpInst::ICMP_EQ, u, Val::I(8, 0)))) break;
    }
    ret = Val::I(32, 0); return true;
  }
  if (name == "memchr" || name == "wmemchr") {
    u64 es = name == "memchr" ? 1 : 4, n = concretize(s, a[2]), p = concretize(s, a[0]); u32 w = (u32)es * 8; Val ch = cast1(Instruction::Trunc, a[1], IntegerType::get(M->getContext(), 32), IntegerType::get(M->getContext(), w));
    if (es == 4) ch = a[1];
    for (u64 i = 0; i < n; i++) { std::vector<Cell> x; readCells(s, p + i * es, es, x); if (branchV(s, icmp(CmpInst::ICMP_EQ, fromCells(x.data(), (u32)es, w), ch))) { ret = Val::I(64, p + i * es); return true; } }
    ret = Val::I(64, 0); return true;
  }
  if (name == "strlen") { u64 p = concretize(s, a[0]); for (u64 i = 0;; i++) { std::vector<Cell> x; readCells(s, p + i, 1, x); if (branchV(s, icmp(CmpInst::ICMP_EQ, fromCells(x.data(), 1, 8), Val::I(8, 0)))) { ret = Val::I(64, i); return true; } } }
  if (name == "printf" || name == "puts" || name == "putchar" || name == "fprintf" || name == "fflush") { stubs.insert(name); if (!rt->isVoidTy()) ret = Val::I(twidth(rt), 0); return true; }
  // libm
  static const std::set<std::string> m1{"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "atan2", "pow", "hypot", "fmod", "copysign", "fmin", "fmax", "fdim", "remainder", "fma"};
  std::string b = name; if (b.rfind("__", 0) == 0 && b.size() > 9 && b.substr(b.size() - 7) == "_finite") b = b.substr(2, b.size() - 9);
  if (m1.count(b) && rt->isDoubleTy()) { ret = fmath(b, a, 64); return true; }
  if (!b.empty() && b.back() == 'f' && m1.count(b.substr(0, b.size() - 1)) && rt->isFloatTy()) { ret = fmath(b.substr(0, b.size() - 1), a, 32); return true; }
  if (!b.empty() && b.back() == 'l' && m1.count(b.substr(0, b.size() - 1)) && rt->isX86_FP80Ty()) { ret = fmath(b.substr(0, b.size() - 1), a, 80); return true; }
  throw Unsupported{"external function " + llvm::demangle(name)};
}

void Engine::doCall(const PInst &in) {
  Frame &f = top(); auto *cb = cast<CallBase>(in.I);
  std::vector<Val> a; a.reserve(in.ops.size());
  for (size_t i = 0; i + 1 < in.ops.size(); i++) a.push_back(in.ops[i] == (1 << 30) ? Val::U(0) : val(f, in.ops[i]));
  Function *F = cb->getCalledFunction();
  if (!F) {
    if (cb->isInlineAsm()) { // only empty asm barriers
      auto *ia = cast<InlineAsm>(cb->getCalledOperand());
      if (ia->getAsmString().empty()) { finish(in, in.I->getType()->isVoidTy() ? Val() : a.empty() ? undefOf(in.I->getType()) : a[0]); return; }
      throw Unsupported{"inline asm"};
    }
    u64 t = concretize(*st, val(f, in.ops.back()));
    auto it = faddr.find(t); if (it == faddr.end()) throw Abort{"memory", "call through an invalid function pointer (" + std::to_string(t) + ")"};
    F = it->second;
  }
  if (F->isIntrinsic()) { Val r; if (intrin(in, F->getIntrinsicID(), a, r)) finish(in, r); return; }
  if (F->isDeclaration() || F->getName().starts_with("xs_")) { Val r; if (extCall(in, F->getName().str(), a, r)) finish(in, r); return; }
  pushFrame(prep(F), a, &in);
}

void Engine::exec(const PInst &in) {
  using I = Instruction; State &s = *st; Frame &f = top();
  auto op = [&](int i) -> const Val & { return val(f, in.ops[i]); };
  Type *t = in.I->getType();
  if (isAtomicInst(in)) { if (!atomicOp(in)) { s.cur = 0; } return; }
  switch (in.op) {
  case I::Ret: {
    Val r; if (!in.ops.empty()) r = op(0);
    const PInst *c = f.call; popFrame();
    auto &T = s.th[s.cur];
    if (T.st.empty()) { T.done = true; return; }
    if (c) finish(*c, r);
    return;
  }
  case I::Br: if (in.ops.empty()) jump(f, in.b0); else { bool b = branchV(s, op(0)); jump(f, b ? in.b0 : in.b1); } return;
  case I::Switch: {
    const Val &v = op(0); auto *cs = (std::vector<std::pair<u64, int>> *)in.aux;
    if (v.isInt()) { for (auto &c : *cs) if (c.first == v.c) { jump(f, c.second); return; } jump(f, in.b0); return; }
    if (undefish(v)) throw Abort{"uninit", "switch on an uninitialised value"};
    for (auto &c : *cs) if (branch(s, bv(v) == bvnum(c.first, v.w))) { jump(f, c.second); return; }
    jump(f, in.b0); return;
  }
  case I::Unreachable: throw Abort{"ub", "execution reaches a point the program declares unreachable"};
  case I::Invoke: case I::Call: doCall(in); return;
  case I::Resume: { auto &T = s.th[s.cur]; T.inflight = aggN(op(0))->v[0].c; 
    // continue unwinding in the caller
    popFrame(); if (T.st.empty()) throw Abort{"terminate", "exception escapes every handler (std::terminate)"};
    unwind(); return; }
  case I::Alloca: {
    auto *al = cast<AllocaInst>(in.I); u64 n = concretize(s, op(0)) * DL->getTypeAllocSize(al->getAllocatedType());
    u64 p = alloc(s, n, al->getAlign().value(), OK::Stack, al->hasName() ? al->getName().str() : "local");
    f.allocas.push_back(p); setDst(in, Val::I(64, p)); f.ip++; return;
  }
  case I::Load: {
    u64 p = concretize(s, op(0)); auto *l = cast<LoadInst>(in.I); u64 al = l->getAlign().value();
    Val v = load(s, p, t);
    if (p % al) throw Abort{"align", "misaligned load: needs " + std::to_string(al) + "-byte alignment"};
    setDst(in, v); f.ip++; return;
  }
  case I::Store: {
    u64 p = concretize(s, op(1)); auto *l = cast<StoreInst>(in.I); u64 al = l->getAlign().value();
    store(s, p, op(0), l->getValueOperand()->getType());
    if (p % al) throw Abort{"align", "misaligned store: needs " + std::to_string(al) + "-byte alignment"};
    f.ip++; return;
  }
  case I::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(in.I);
    if (t->isVectorTy()) throw Unsupported{"vector gep"};
    Val r = op(0); u64 off = 0; std::optional<expr> soff; int i = 1; bool und = undefish(r);
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, i++) {
      const Val &ix = op(i);
      if (StructType *stt = it.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset((unsigned)ix.c); continue; }
      u64 sz = DL->getTypeAllocSize(it.getIndexedType());
      if (undefish(ix)) { und = true; continue; }
      if (ix.isInt()) off += (u64)sx(ix.c, ix.w) * sz;
      else { expr x = bv(ix); if (ix.w < 64) x = z3::sext(x, 64 - ix.w); x = x * bvnum(sz, 64); soff = soff ? *soff + x : x; }
    }
    if (und) { setDst(in, Val::U(64)); f.ip++; return; }
    if (r.isInt() && !soff) r = Val::I(64, r.c + off);
    else { expr x = bv(r) + bvnum(off, 64); if (soff) x = x + *soff; r = mkSym(x.simplify(), 64); }
    setDst(in, r); f.ip++; return;
  }
  case I::Add: case I::Sub: case I::Mul: case I::UDiv: case I::SDiv: case I::URem: case I::SRem: case I::Shl: case I::LShr: case I::AShr: case I::And: case I::Or: case I::Xor: {
    unsigned o = in.op; Val x = op(0), y = op(1);
    setDst(in, lanes2(t, x, y, [&](const Val &p, const Val &q, Type *et) { return binop(o, p, q, twidth(et)); })); top().ip++; return;
  }
  case I::FAdd: case I::FSub: case I::FMul: case I::FDiv: case I::FRem: {
    unsigned o = in.op; Val x = op(0), y = op(1);
    setDst(in, lanes2(t, x, y, [&](const Val &p, const Val &q, Type *et) { return fbin(o, p, q, twidth(et)); })); top().ip++; return;
  }
  case I::FNeg: { Val x = op(0); if (auto *v = dyn_cast<FixedVectorType>(t)) setDst(in, mkAgg(v->getNumElements(), [&](unsigned i) { return fneg(aggN(x)->v[i]); })); else setDst(in, fneg(x)); f.ip++; return; }
  case I::ICmp: case I::FCmp: {
    auto p = cast<CmpInst>(in.I)->getPredicate(); bool ic = in.op == I::ICmp; Val x = op(0), y = op(1);
    setDst(in, lanes2(in.I->getOperand(0)->getType(), x, y, [&](const Val &u, const Val &v, Type *) { return ic ? icmp(p, u, v) : fcmp(p, u, v); })); f.ip++; return;
  }
  case I::Select: {
    Val c = op(0), x = op(1), y = op(2);
    if (c.k == K::Agg) { Type *et = cast<FixedVectorType>(t)->getElementType(); setDst(in, mkAgg(aggN(c)->v.size(), [&](unsigned i) { return select1(aggN(c)->v[i], aggN(x)->v[i], aggN(y)->v[i], et); })); }
    else setDst(in, select1(c, x, y, t));
    f.ip++; return;
  }
  case I::Trunc: case I::ZExt: case I::SExt: case I::FPToUI: case I::FPToSI: case I::UIToFP: case I::SIToFP: case I::FPTrunc: case I::FPExt: case I::PtrToInt: case I::IntToPtr: case I::AddrSpaceCast: {
    Type *ft = in.I->getOperand(0)->getType(); Val x = op(0);
    if (auto *v = dyn_cast<FixedVectorType>(t)) { Type *fe = cast<FixedVectorType>(ft)->getElementType(); setDst(in, mkAgg(v->getNumElements(), [&](unsigned i) { return cast1(in.op, aggN(x)->v[i], fe, v->getElementType()); })); }
    else { if ((in.op == I::SIToFP || in.op == I::UIToFP) && t->isX86_FP80Ty() && x.k == K::Sym) x = Val::I(ft->getIntegerBitWidth(), concretize(*st, x)); // few values: each one a path
      setDst(in, cast1(in.op, x, ft, t)); }
    f.ip++; return;
  }
  case I::BitCast: setDst(in, bitcast(op(0), in.I->getOperand(0)->getType(), t)); f.ip++; return;
  case I::Freeze: { Val x = op(0); std::function<Val(const Val &, Type *)> fz = [&](const Val &v, Type *ty) -> Val { if (v.k == K::Agg) return mkAgg(aggN(v)->v.size(), [&](unsigned i) { return fz(aggN(v)->v[i], nullptr); }); if (undefish(v)) return Val::I(v.w, 0); (void)ty; return v; }; setDst(in, fz(x, t)); f.ip++; return; }
  case I::ExtractValue: { auto *e = cast<ExtractValueInst>(in.I); Val v = op(0); for (unsigned i : e->indices()) { Val q = aggN(v)->v[i]; v = q; } setDst(in, v); f.ip++; return; }
  case I::InsertValue: {
    auto *e = cast<InsertValueInst>(in.I); std::vector<unsigned> ix(e->idx_begin(), e->idx_end()); Val x = op(1);
    std::function<Val(const Val &, unsigned)> ins = [&](const Val &v, unsigned d) -> Val { if (d == ix.size()) return x; auto *n = aggN(v); return mkAgg(n->v.size(), [&](unsigned i) { return i == ix[d] ? ins(n->v[i], d + 1) : n->v[i]; }); };
    setDst(in, ins(op(0), 0)); f.ip++; return;
  }
  case I::ExtractElement: { u64 i = concretize(s, op(1)); auto &v = aggN(op(0))->v; Val r = i < v.size() ? v[i] : Val::U(twidth(t)); setDst(in, r); f.ip++; return; }
  case I::InsertElement: { u64 k = concretize(s, op(2)); Val v = op(0), x = op(1); setDst(in, mkAgg(aggN(v)->v.size(), [&](unsigned i) { return i == k ? x : aggN(v)->v[i]; })); f.ip++; return; }
  case I::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(in.I); Val a = op(0), b = op(1); auto m = sv->getShuffleMask(); unsigned n = (unsigned)aggN(a)->v.size(); Type *et = cast<FixedVectorType>(t)->getElementType();
    setDst(in, mkAgg(m.size(), [&](unsigned i) { int k = m[i]; if (k < 0) return Val::U(twidth(et)); return (unsigned)k < n ? aggN(a)->v[k] : aggN(b)->v[k - n]; })); f.ip++; return;
  }
  case I::LandingPad: throw Unsupported{"landingpad reached directly"};
  case I::VAArg: throw Unsupported{"va_arg"};
  default: throw Unsupported{std::string("instruction ") + in.I->getOpcodeName()};
  }
}

// ------------------------------------------------------------------ driver
void Engine::endPath() {
  State &s = *st; S.paths++;
  for (auto &r : s.reached) reached[r]++;
  if (O.samples > 0) {
    sampleSeen++;
    // reservoir of path models used to validate the encoding against a native run
    size_t slot = samples.size();
    if ((int)samples.size() >= O.samples) { u64 j = rnd() % sampleSeen; if (j >= (u64)O.samples) return; slot = j; }
    if (s.mt) return;
    if (!s.model && !s.pcs.empty()) { R r = solver.check(s.pcs, {}); if (r != R::Sat) return; s.model = solver.model; }
    z3::model *m = s.model ? &*s.model : nullptr; std::optional<z3::model> em;
    bool hasReal = false, trig = false; for (auto &i : s.inputs) if (i.v.k == K::Real) hasReal = true;
    for (auto &[key, pr] : s.real) if (key.compare(0, 5, "sqrt:") != 0) trig = true;
    if (hasReal) {
      bool got = false;
      for (int t = 0; t < 6 && !got; t++) { std::vector<expr> ex; pinReals(t % 2 ? 12 : 0, ex); if (solver.check(s.pcs, ex, false) == R::Sat) { em = solver.model; m = &*em; got = true; } }
      if (!got && trig) return;
    }
    if (!m) { if (solver.check(s.pcs, {}) != R::Sat) return; em = solver.model; m = &*em; }
    Sample x; x.in = inputsOf(m);
    for (auto &o : s.obs) x.obs.push_back(o.label + " " + fmt(o.v, o.v.k == K::Real ? 'r' : 'u', m));
    if (slot == samples.size()) samples.push_back(x); else samples[slot] = x;
  }
}

void Engine::runState(State *sp) {
  st = sp; State &s = *sp;
  try {
    while (true) {
      if (s.mt && s.join && s.cur == 0) { if (!schedule()) { S.infeasible++; return; } continue; }
      auto &T = s.th[s.cur];
      if (T.done) { if (s.cur == 0) break; s.cur = 0; continue; }
      Frame &f = T.st.back();
      const PInst &in = f.f->bbs[f.bb].ins[f.ip];
      S.instrs++;
      if (++s.steps > O.maxsteps) throw Abort{"hang", "path exceeds " + std::to_string(O.maxsteps) + " instructions (possible non-termination)"};
      if ((S.instrs & 0xfff) == 0 && now() - t0 > O.timebudget) { stop = true; stopReason = "time budget"; return; }
      if (O.verbose && O.selftest) { std::string q; raw_string_ostream os(q); in.I->print(os); fprintf(stderr, "[%llu/T%d] %s\n", (unsigned long long)s.id, s.cur, q.c_str()); }
      bool wasgo = s.go;
      exec(in);
      // a scheduled thread stops after its visible operation so that main's scheduler chooses again
      if (s.mt && s.join && s.cur != 0 && wasgo && !s.go) s.cur = 0;
    }
    endPath();
  } catch (Abort &a) {
    killViolation(a.kind, a.msg, {});
    S.paths++;
  } catch (Unsupported &u) {
    if (unsup.size() < 20) unsup[u.msg] = where(); S.paths++;
  } catch (Infeasible &) { S.infeasible++; }
  catch (PathKill &) { S.infeasible++; }
  catch (z3::exception &e) { unsup[std::string("z3: ") + e.msg()] = where(); S.paths++; }
}

void Engine::loadModule(Module *m) {
  M = m; DL = &m->getDataLayout();
  u64 fa = 0x10000; for (auto &F : *m) { gaddr[&F] = fa; faddr[fa] = &F; fa += 32; }
  u64 b = 0x1000000;
  for (auto &g : m->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; u64 al = std::max<u64>(g.getAlign().valueOrOne().value(), DL->getABITypeAlign(g.getValueType()).value());
    b = (b + 2 * al - 1) / (2 * al) * (2 * al) + al; gaddr[&g] = b; b += std::max<u64>(sz, 8) + 128;
    if (g.getName().starts_with("_ZTI")) tiName[gaddr[&g]] = g.getName().str();
  }
  for (auto &a : m->aliases()) { auto *t = a.getAliaseeObject(); gaddr[&a] = gaddr[t]; }
}

void Engine::run() {
  t0 = now();
  State *s0 = new State; s0->id = nextState++; s0->bump = 0x10000000; s0->th.resize(1);
  st = s0;
  for (auto &g : M->globals()) {
    if (!g.getValueType()->isSized()) continue;
    Obj *o = new Obj; o->base = gaddr[&g]; o->size = DL->getTypeAllocSize(g.getValueType()); o->kind = OK::Global; o->name = g.getName().str(); o->ro = g.isConstant() && g.hasInitializer();
    if (g.getName().starts_with("llvm.")) { delete o; continue; }
    if (g.hasInitializer()) { try { flatten(cval(g.getInitializer()), g.getValueType(), o->m); } catch (Unsupported &) { o->m.clear(); } o->m.resize(o->size); }
    else { o->size = std::max<u64>(o->size, 8); o->m.assign(o->size, Cell::C(0)); }
    s0->mem[o->base] = Ref<Obj>(o);
  }
  // static constructors
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v;
    for (auto &op : arr->operands()) { auto *cs = cast<ConstantStruct>(op); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : v) if (c.second) {
      s0->th[0].st.clear(); s0->th[0].done = false; s0->cur = 0; st = s0; pushFrame(prep(c.second), {}, nullptr);
      try { while (!s0->th[0].done) { Frame &f = top(); exec(f.f->bbs[f.bb].ins[f.ip]); } } catch (Abort &a) { unsup["static constructor: " + a.msg] = where(); } catch (Unsupported &u) { unsup["static constructor: " + u.msg] = where(); }
    }
    s0->th[0].st.clear(); s0->th[0].done = false;
  }
  Function *F = M->getFunction(O.entry);
  if (!F || F->isDeclaration()) { unsup["no entry " + O.entry] = ""; delete s0; return; }
  pushFrame(prep(F), {}, nullptr);
  work.push_back(s0);
  while (!work.empty() && !stop) {
    State *s = work.back(); work.pop_back();
    runState(s);
    delete s;
    if (S.paths + S.infeasible >= O.maxpaths) { stop = true; stopReason = "path limit"; }
    if (now() - t0 > O.timebudget) { if (!work.empty()) { stop = true; stopReason = "time budget"; } }
  }
}

void Engine::report() {
  std::string out; auto add = [&](const std::string &x) { out += x; };
  auto num = [&](const char *k, double v) { char b[96]; snprintf(b, 96, "\"%s\": %.17g, ", k, v); add(b); };
  add("{");
  add("\"entry\": \"" + jesc(O.entry) + "\", ");
  num("paths", S.paths); num("infeasible", S.infeasible); num("instrs", S.instrs); num("forks", S.forks); num("concretized", S.concretized); num("queries", S.queries); num("sat", S.q_sat); num("unsat", S.q_unsat); num("unknown", S.q_unknown);
  num("solver_s", S.solver_s); num("wall_s", now() - t0); num("obligations", S.obligations); num("discharged", S.discharged); num("trivial", S.trivially); num("inconclusive", S.inconclusive); num("memchecks", S.memchecks); num("realeq", S.realeq); num("realeq_exact", S.realeq_exact);
  bool limit = stop && stopReason != "violation limit";
  add("\"stopped\": \"" + jesc(limit ? stopReason : "") + "\", ");
  auto list = [&](const char *k, const std::vector<std::string> &v) { add(std::string("\"") + k + "\": ["); for (size_t i = 0; i < v.size(); i++) add((i ? ", \"" : "\"") + jesc(v[i]) + "\""); add("], "); };
  list("inconclusive_list", {incon.begin(), incon.end()}); list("stubs", {stubs.begin(), stubs.end()});
  std::vector<std::string> us; for (auto &u : unsup) us.push_back(u.first + (u.second.empty() ? "" : " @ " + u.second)); list("unsupported", us);
  add("\"reached\": {"); { bool f = true; for (auto &r : reached) { add(std::string(f ? "" : ", ") + "\"" + jesc(r.first) + "\": " + std::to_string(r.second)); f = false; } } add("}, ");
  add("\"checks\": {"); { bool f = true; for (auto &r : checks) { add(std::string(f ? "" : ", ") + "\"" + jesc(r.first) + "\": " + std::to_string(r.second)); f = false; } } add("}, ");
  std::vector<std::string> fs; for (auto &p : pf) if (p.second && p.second->entered && p.second->dem.find("xme::") != std::string::npos) { std::string d = p.second->dem; fs.push_back(d); }
  std::sort(fs.begin(), fs.end()); list("functions", fs);
  add("\"samples\": ["); for (size_t i = 0; i < samples.size(); i++) { add(i ? ", {" : "{"); list("in", samples[i].in); list("obs", samples[i].obs); add("\"z\": 0}"); } add("], ");
  add("\"violations\": ["); for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; add(i ? ", {" : "{"); add("\"kind\": \"" + jesc(v.kind) + "\", \"msg\": \"" + jesc(v.msg) + "\", \"loc\": \"" + jesc(v.loc) + "\", \"sched\": \"" + jesc(v.sched) + "\", \"inputs\": ["); for (size_t j = 0; j < v.inputs.size(); j++) { add(j ? ", [" : "["); for (size_t q = 0; q < v.inputs[j].size(); q++) add((q ? ", \"" : "\"") + jesc(v.inputs[j][q]) + "\""); add("]"); } add("]}"); } add("]");
  add("}\n");
  if (O.out.empty()) fputs(out.c_str(), stdout); else { FILE *f = fopen(O.out.c_str(), "w"); fputs(out.c_str(), f); fclose(f); }
}

int main(int argc, char **argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--qtimeout") O.qtimeout = (unsigned)atoi(nx().c_str());
    else if (a == "--maxpaths") O.maxpaths = strtoull(nx().c_str(), 0, 10); else if (a == "--maxsteps") O.maxsteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--time") O.timebudget = atof(nx().c_str()); else if (a == "--seed") O.seed = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") O.samples = atoi(nx().c_str());
    else if (a == "--maxviol") O.maxviol = atoi(nx().c_str());
    else if (a == "-v") O.verbose = true; else if (a == "--trace") { O.verbose = O.selftest = true; } else file = a;
  }
  z3::set_param("memory_max_size", 6000);
  z3::context c; gctx = &c;
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(file, err, ctx);
  if (!m) { err.print("xsym", errs()); return 3; }
  Engine E; E.loadModule(m.get());
  try { E.run(); } catch (Unsupported &u) { E.unsup[u.msg] = ""; } catch (z3::exception &e) { E.unsup[std::string("z3: ") + e.msg()] = ""; }
  E.report();
  fflush(stdout);
  _exit(0);
}
