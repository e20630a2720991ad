#include "exec.hpp"

// bytewise logic for partially initialised integers
static Val mixBits(unsigned op, const Val &a, const Val &b, u32 w) {
  if (w % 8) return Val::U(w);
  u32 n = w / 8; std::vector<Cell> x, y, r;
  toCells(a, n, x); toCells(b, n, y);
  if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) {
    for (u32 i = 0; i < n; i++) {
      Cell &p = x[i], &q = y[i];
      if (p.k == 1 && q.k == 1) { u8 v = op == Instruction::And ? p.b & q.b : op == Instruction::Or ? p.b | q.b : p.b ^ q.b; r.push_back(Cell::C(v)); continue; }
      if (p.k == 1 || q.k == 1) {
        u8 k = p.k == 1 ? p.b : q.b; const Cell &o = p.k == 1 ? q : p;
        if (op == Instruction::And && k == 0) { r.push_back(Cell::C(0)); continue; }
        if ((op == Instruction::And && k == 0xff) || (op != Instruction::And && k == 0)) { r.push_back(o); continue; }
        if (op == Instruction::Or && k == 0xff) { r.push_back(Cell::C(0xff)); continue; }
      }
      if (p.k && q.k) {
        Val u = fromCells(&p, 1, 8), v = fromCells(&q, 1, 8);
        if (u.k == K::Mix || v.k == K::Mix) return Val::U(w);
        expr e = op == Instruction::And ? (bv(u) & bv(v)) : op == Instruction::Or ? (bv(u) | bv(v)) : (bv(u) ^ bv(v));
        toCells(mkSym(e.simplify(), 8), 1, r); continue;
      }
      r.push_back(Cell());
    }
    return mixVal(r, w);
  }
  if (b.k == K::Int && b.c % 8 == 0 && b.c < w) {
    u32 s = (u32)b.c / 8; r.assign(n, Cell::C(0));
    if (op == Instruction::LShr) { for (u32 i = 0; i + s < n; i++) r[i] = x[i + s]; return mixVal(r, w); }
    if (op == Instruction::Shl) { for (u32 i = s; i < n; i++) r[i] = x[i - s]; return mixVal(r, w); }
  }
  return Val::U(w);
}

Val Engine::binop(unsigned op, const Val &a, const Val &b, u32 w) {
  using I = Instruction;
  if (undefish(a) || undefish(b)) {
    if ((op == I::UDiv || op == I::SDiv || op == I::URem || op == I::SRem) && undefish(b)) throw Abort{"uninit", "division by an uninitialised value"};
    if (op == I::And) { if (a.isInt() && a.c == 0) return a; if (b.isInt() && b.c == 0) return b; }
    if (op == I::Mul) { if (a.isInt() && a.c == 0) return a; if (b.isInt() && b.c == 0) return b; }
    return mixBits(op, a, b, w);
  }
  if (a.k == K::Real || b.k == K::Real) throw Unsupported{"integer operation on a real-mode value"};
  if (op == I::UDiv || op == I::SDiv || op == I::URem || op == I::SRem) {
    if (b.isInt() ? b.c == 0 : branch(*st, bv(b) == bvnum(0, w))) throw Abort{"arith", "integer division by zero"};
  }
  if (a.isInt() && b.isInt() && w <= 64) {
    u64 x = a.c, y = b.c;
    switch (op) {
    case I::Add: return Val::I(w, x + y); case I::Sub: return Val::I(w, x - y); case I::Mul: return Val::I(w, x * y);
    case I::And: return Val::I(w, x & y); case I::Or: return Val::I(w, x | y); case I::Xor: return Val::I(w, x ^ y);
    case I::Shl: return y >= w ? Val::U(w) : Val::I(w, x << y);
    case I::LShr: return y >= w ? Val::U(w) : Val::I(w, x >> y);
    case I::AShr: return y >= w ? Val::U(w) : Val::I(w, (u64)(sx(x, w) >> y));
    case I::UDiv: return Val::I(w, x / y); case I::URem: return Val::I(w, x % y);
    case I::SDiv: { i64 p = sx(x, w), q = sx(y, w); if (q == -1) return Val::I(w, (u64)0 - (u64)p); return Val::I(w, (u64)(p / q)); }
    case I::SRem: { i64 p = sx(x, w), q = sx(y, w); if (q == -1) return Val::I(w, 0); return Val::I(w, (u64)(p % q)); }
    }
  }
  if (w == 1) {
    switch (op) {
    case I::And: if (a.isInt()) return a.c ? b : a; if (b.isInt()) return b.c ? a : b; return mkSym(bl(a) && bl(b), 1);
    case I::Or: if (a.isInt()) return a.c ? a : b; if (b.isInt()) return b.c ? b : a; return mkSym(bl(a) || bl(b), 1);
    case I::Xor: case I::Add: case I::Sub:
      if (a.isInt()) return a.c ? mkSym(!bl(b), 1) : b; if (b.isInt()) return b.c ? mkSym(!bl(a), 1) : a;
      return mkSym(bl(a) != bl(b), 1);
    case I::Mul: return mkSym(bl(a) && bl(b), 1);
    }
    throw Unsupported{"i1 arithmetic"};
  }
  if (a.isInt() || b.isInt()) { // identities
    if (b.isInt()) {
      if (b.c == 0 && (op == I::Add || op == I::Sub || op == I::Or || op == I::Xor || op == I::Shl || op == I::LShr || op == I::AShr)) return a;
      if (b.c == 0 && (op == I::And || op == I::Mul)) return b;
      if (b.c == 1 && (op == I::Mul || op == I::UDiv || op == I::SDiv)) return a;
    } else if (a.c == 0) {
      if (op == I::Add || op == I::Or || op == I::Xor) return b;
      if (op == I::And || op == I::Mul) return a;
    }
  }
  expr x = bv(a), y = bv(b), r(C());
  switch (op) {
  case I::Add: r = x + y; break; case I::Sub: r = x - y; break; case I::Mul: r = x * y; break;
  case I::And: r = x & y; break; case I::Or: r = x | y; break; case I::Xor: r = x ^ y; break;
  case I::Shl: r = z3::shl(x, y); break; case I::LShr: r = z3::lshr(x, y); break; case I::AShr: r = z3::ashr(x, y); break;
  case I::UDiv: r = z3::udiv(x, y); break; case I::URem: r = z3::urem(x, y); break;
  case I::SDiv: r = x / y; break; case I::SRem: r = z3::srem(x, y); break;
  default: throw Unsupported{"binop"};
  }
  return mkSym(r.simplify(), w);
}

Val Engine::icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (undefish(a) || undefish(b)) {
    // comparing partially-initialised bytes: decided only if every byte is initialised
    return Val::U(1);
  }
  u32 w = a.w;
  if (a.isInt() && b.isInt()) {
    u64 x = a.c, y = b.c; i64 p1 = sx(x, w), q = sx(y, w); bool r = false;
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = p1 > q; break; case CmpInst::ICMP_SGE: r = p1 >= q; break;
    case CmpInst::ICMP_SLT: r = p1 < q; break; case CmpInst::ICMP_SLE: r = p1 <= q; break;
    default: break;
    }
    return Val::I(1, r);
  }
  if (w == 1) {
    if (p == CmpInst::ICMP_EQ) return mkSym((bl(a) == bl(b)).simplify(), 1);
    if (p == CmpInst::ICMP_NE) return mkSym((bl(a) != bl(b)).simplify(), 1);
  }
  expr x = bv(a), y = bv(b), r(C());
  switch (p) {
  case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
  case CmpInst::ICMP_UGT: r = z3::ugt(x, y); break; case CmpInst::ICMP_UGE: r = z3::uge(x, y); break;
  case CmpInst::ICMP_ULT: r = z3::ult(x, y); break; case CmpInst::ICMP_ULE: r = z3::ule(x, y); break;
  case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break;
  case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break;
  default: throw Unsupported{"icmp"};
  }
  return mkSym(r.simplify(), 1);
}

static expr den1(RealNode *n) { return n->den ? *n->den : C().real_val(1); }

Val Engine::fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (p == CmpInst::FCMP_TRUE) return Val::I(1, 1);
  if (p == CmpInst::FCMP_FALSE) return Val::I(1, 0);
  if (undefish(a) || undefish(b)) return Val::U(1);
  if (a.k == K::Real || b.k == K::Real) {
    if (p == CmpInst::FCMP_ORD) return Val::I(1, 1);
    if (p == CmpInst::FCMP_UNO) return Val::I(1, 0);
    // comparison with an infinite constant
    if (a.isInt() && !std::isfinite(fpv(a))) { double d = fpv(a); if (std::isnan(d)) return Val::I(1, CmpInst::isUnordered(p)); return fcmp(p, fpc(d > 0 ? 1 : -1, a.w), fpc(0, a.w)); }
    if (b.isInt() && !std::isfinite(fpv(b))) { double d = fpv(b); if (std::isnan(d)) return Val::I(1, CmpInst::isUnordered(p)); return fcmp(p, fpc(0, b.w), fpc(d > 0 ? 1 : -1, b.w)); }
    Val x = asReal(a), y = asReal(b); auto m = realN(x), n = realN(y);
    expr zero = C().real_val(0);
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: {
      expr d = som(m->num * den1(n) - n->num * den1(m));
      S.realeq++; if (m->exact && n->exact) S.realeq_exact++;
      bool ne = p == CmpInst::FCMP_ONE || p == CmpInst::FCMP_UNE;
      expr r = (d == zero).simplify();
      return mkSym(ne ? (!r).simplify() : r, 1);
    }
    default: {
      expr d = (m->den || n->den) ? som((m->num * den1(n) - n->num * den1(m)) * den1(m) * den1(n)) : som(m->num - n->num);
      expr r(C());
      switch (p) {
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = d > zero; break;
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = d >= zero; break;
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = d < zero; break;
      default: r = d <= zero; break;
      }
      return mkSym(r.simplify(), 1);
    } }
  }
  if (a.isInt() && b.isInt()) {
    double x = fpv(a), y = fpv(b); bool u = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
    case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UEQ: r = u || x == y; break;
    case CmpInst::FCMP_ONE: r = !u && x != y; break; case CmpInst::FCMP_UNE: r = u || x != y; break;
    case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_UGT: r = u || x > y; break;
    case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break;
    case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_ULT: r = u || x < y; break;
    case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break;
    case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break;
    default: break;
    }
    return Val::I(1, r);
  }
  expr x = toFp(a), y = toFp(b);
  expr u = wrapE(Z3_mk_fpa_is_nan(C(), x)) || wrapE(Z3_mk_fpa_is_nan(C(), y));
  expr eq = wrapE(Z3_mk_fpa_eq(C(), x, y)), lt = wrapE(Z3_mk_fpa_lt(C(), x, y)), gt = wrapE(Z3_mk_fpa_gt(C(), x, y)), le = wrapE(Z3_mk_fpa_leq(C(), x, y)), ge = wrapE(Z3_mk_fpa_geq(C(), x, y));
  expr r(C());
  switch (p) {
  case CmpInst::FCMP_OEQ: r = eq; break; case CmpInst::FCMP_UEQ: r = u || eq; break;
  case CmpInst::FCMP_ONE: r = !u && !eq; break; case CmpInst::FCMP_UNE: r = !eq; break;
  case CmpInst::FCMP_OGT: r = gt; break; case CmpInst::FCMP_UGT: r = !le; break;
  case CmpInst::FCMP_OGE: r = ge; break; case CmpInst::FCMP_UGE: r = !lt; break;
  case CmpInst::FCMP_OLT: r = lt; break; case CmpInst::FCMP_ULT: r = !ge; break;
  case CmpInst::FCMP_OLE: r = le; break; case CmpInst::FCMP_ULE: r = !gt; break;
  case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break;
  default: throw Unsupported{"fcmp"};
  }
  return mkSym(r.simplify(), 1);
}

Val Engine::realDiv(const Val &a, const Val &b, u32 w) {
  auto m = realN(a), n = realN(b);
  expr zero = C().real_val(0);
  if (n->num.is_numeral() && !n->den) {
    if ((n->num == zero).simplify().is_true()) throw Abort{"fpdiv", "floating-point division by zero"};
    double d = 0; try { d = std::fabs(n->num.as_double()); } catch (...) {}
    bool p2 = false; int ex = 0; if (d > 0) { double mm = std::frexp(d, &ex); p2 = mm == 0.5; ex--; }
    return mkReal(som(m->num / n->num), m->den, d > 0 ? m->M / d : 1e300, p2 ? m->g - ex : m->g - 60, m->exact && p2, w, m->prec);
  }
  expr bn = som(n->num);
  if (branch(*st, bn == zero)) throw Abort{"fpdiv", "floating-point division by a value that can be zero"};
  // x / y = (mn * nd) / (md * nn)
  expr num = n->den ? som(m->num * *n->den) : m->num;
  expr den = m->den ? som(*m->den * bn) : bn;
  if (som(num - den).is_numeral() && (som(num - den) == zero).simplify().is_true()) return mkReal(C().real_val(1), std::nullopt, 1, 0, m->exact && n->exact, w, 255, false);
  return mkReal(num, den, 1e300, -200, false, w, std::min(m->prec, n->prec));
}

Val Engine::fbin(unsigned op, const Val &a, const Val &b, u32 w) {
  using I = Instruction;
  if (undefish(a) || undefish(b)) return Val::U(w);
  if (a.k == K::Real || b.k == K::Real) {
    Val x = asReal(a), y = asReal(b); auto m = realN(x), n = realN(y);
    // an intermediate of narrower type was already rounded; exactness is re-derived from magnitude/granularity
    switch (op) {
    case I::FAdd: case I::FSub: {
      expr r(C()); std::optional<expr> d;
      auto comb = [&](const expr &p, const expr &q) { return op == I::FAdd ? p + q : p - q; };
      if (!m->den && !n->den) r = som(comb(m->num, n->num));
      else if (m->den && n->den && z3::eq(*m->den, *n->den)) { r = som(comb(m->num, n->num)); d = m->den; }
      else { r = som(comb(m->num * den1(n), n->num * den1(m))); d = m->den && n->den ? som(*m->den * *n->den) : m->den ? *m->den : *n->den; }
      return mkReal(r, d, m->M + n->M, std::min(m->g, n->g), m->exact && n->exact, w, std::min(m->prec, n->prec));
    }
    case I::FMul: {
      std::optional<expr> d;
      if (m->den && n->den) d = som(*m->den * *n->den); else if (m->den) d = m->den; else if (n->den) d = n->den;
      return mkReal(som(m->num * n->num), d, m->M * n->M, m->g + n->g, m->exact && n->exact, w, std::min(m->prec, n->prec));
    }
    case I::FDiv: return realDiv(x, y, w);
    default: throw Unsupported{"frem on reals"};
    }
  }
  if (a.isInt() && b.isInt()) {
    if (w == 32) {
      float x = (float)fpv(a), y = (float)fpv(b);
      switch (op) { case I::FAdd: return fpcf(x + y); case I::FSub: return fpcf(x - y); case I::FMul: return fpcf(x * y); case I::FDiv: return fpcf(x / y); case I::FRem: return fpcf(fmodf(x, y)); }
    } else if (w == 64) {
      double x = fpv(a), y = fpv(b);
      switch (op) { case I::FAdd: return fpc(x + y, 64); case I::FSub: return fpc(x - y, 64); case I::FMul: return fpc(x * y, 64); case I::FDiv: return fpc(x / y, 64); case I::FRem: return fpc(fmod(x, y), 64); }
    }
    throw Unsupported{"long double arithmetic"};
  }
  if (w != 32 && w != 64) throw Unsupported{"long double arithmetic"};
  expr x = toFp(a), y = toFp(b);
  if ((op == I::FAdd || op == I::FMul) && Z3_get_ast_id(C(), x) > Z3_get_ast_id(C(), y)) std::swap(x, y);
  switch (op) {
  case I::FAdd: return mkFp(wrapE(Z3_mk_fpa_add(C(), rne(), x, y)), w);
  case I::FSub: return mkFp(wrapE(Z3_mk_fpa_sub(C(), rne(), x, y)), w);
  case I::FMul: return mkFp(wrapE(Z3_mk_fpa_mul(C(), rne(), x, y)), w);
  case I::FDiv: return mkFp(wrapE(Z3_mk_fpa_div(C(), rne(), x, y)), w);
  }
  throw Unsupported{"frem on symbolic IEEE values"};
}

Val Engine::fneg(const Val &a) {
  if (undefish(a)) return Val::U(a.w);
  if (a.k == K::Int) return Val::I(a.w, a.c ^ (1ull << (a.w - 1)));
  if (a.k == K::Real) { auto m = realN(a); return mkReal(som(-m->num), m->den, m->M, m->g, m->exact, a.w, m->prec, false); }
  if (a.k == K::Fp) return mkFp(wrapE(Z3_mk_fpa_neg(C(), toFp(a))), a.w);
  return mkSym((bv(a) ^ bvnum(1ull << (a.w - 1), a.w)).simplify(), a.w);
}

Val Engine::cast1(unsigned op, const Val &a, Type *from, Type *to) {
  using I = Instruction; u32 fw = twidth(from), tw = twidth(to);
  switch (op) {
  case I::Trunc:
    if (a.k == K::Undef) return Val::U(tw);
    if (a.k == K::Mix) { if (tw % 8) return Val::U(tw); auto &c = mixN(a)->c; return fromCells(c.data(), tw / 8, tw); }
    if (a.isInt()) return Val::I(tw, a.c);
    if (a.k == K::Real) throw Unsupported{"trunc of real"};
    if (tw == 1) return mkSym((bv(a).extract(0, 0) == bvnum(1, 1)).simplify(), 1);
    return mkSym(bv(a).extract(tw - 1, 0).simplify(), tw);
  case I::ZExt: {
    if (a.k == K::Undef || a.k == K::Mix) {
      if (fw % 8 || tw % 8) return Val::U(tw);
      std::vector<Cell> c; toCells(a, fw / 8, c); while (c.size() < tw / 8) c.push_back(Cell::C(0)); return mixVal(c, tw);
    }
    if (a.k == K::Real) { std::vector<Cell> c; toCells(a, fw / 8, c); while (c.size() < tw / 8) c.push_back(Cell::C(0)); return mixVal(c, tw); }
    if (a.isInt()) { if (tw <= 64) return Val::I(tw, a.c); return mkSym(C().bv_val((uint64_t)a.c, 64).simplify().get_sort().bv_size() == tw ? bvnum(a.c, tw) : z3::zext(bvnum(a.c, 64), tw - 64).simplify(), tw); }
    return mkSym(z3::zext(bv(a), tw - fw).simplify(), tw);
  }
  case I::SExt:
    if (undefish(a)) return Val::U(tw);
    if (a.isInt() && tw <= 64) return Val::I(tw, (u64)sx(a.c, fw));
    if (fw == 1) return mkSym(z3::ite(bl(a), bvnum(~0ull, tw), bvnum(0, tw)), tw);
    return mkSym(z3::sext(bv(a), tw - fw).simplify(), tw);
  case I::PtrToInt: case I::IntToPtr:
    if (undefish(a)) return Val::U(tw);
    if (fw == tw) return a;
    if (a.isInt()) return Val::I(tw, a.c);
    throw Unsupported{"pointer/int cast of a different width"};
  case I::AddrSpaceCast: return a;
  case I::FPExt: case I::FPTrunc:
    if (undefish(a)) return Val::U(tw);
    if (tw > 64 && a.isInt()) { Val r = asReal(a); auto m = realN(r); return mkReal(m->num, m->den, m->M, m->g, m->exact, 80, m->prec, false); }
    if ((tw > 64 || fw > 64) && a.k != K::Real) throw Unsupported{"long double outside the real mode"};
    if (a.isInt()) return fpc(fpv(a), tw);
    if (a.k == K::Real) { auto m = realN(a); return mkReal(m->num, m->den, m->M, m->g, m->exact, tw, m->prec, op == I::FPTrunc); }
    return mkFp(wrapE(Z3_mk_fpa_to_fp_float(C(), rne(), toFp(a), fpsort(tw))), tw);
  case I::SIToFP: case I::UIToFP:
    if (undefish(a)) return Val::U(tw);
    if (tw > 64) { if (!a.isInt()) throw Unsupported{"symbolic integer to long double"}; bool n = op == I::SIToFP && sx(a.c, fw) < 0; return ld80(n, n ? 0 - (u64)sx(a.c, fw) : a.c, 0); }
    if (a.isInt()) {
      if (tw == 32) return fpcf(op == I::SIToFP ? (float)sx(a.c, fw) : (float)a.c);
      return fpc(op == I::SIToFP ? (double)sx(a.c, fw) : (double)a.c, 64);
    }
    return mkFp(wrapE(op == I::SIToFP ? Z3_mk_fpa_to_fp_signed(C(), rne(), bv(a), fpsort(tw)) : Z3_mk_fpa_to_fp_unsigned(C(), rne(), bv(a), fpsort(tw))), tw);
  case I::FPToSI: case I::FPToUI:
    if (undefish(a)) return Val::U(tw);
    if (a.isInt()) { double d = fpv(a); if (op == I::FPToSI) return Val::I(tw, (u64)(i64)d); return Val::I(tw, (u64)d); }
    if (a.k == K::Real) throw Unsupported{"real to integer"};
    return mkSym(wrapE(op == I::FPToSI ? Z3_mk_fpa_to_sbv(C(), rtz(), toFp(a), tw) : Z3_mk_fpa_to_ubv(C(), rtz(), toFp(a), tw)).simplify(), tw);
  case I::BitCast: return bitcast(a, from, to);
  }
  throw Unsupported{"cast"};
}

Val Engine::select1(const Val &c, const Val &a, const Val &b, Type *t) {
  if (c.k == K::Int) return (c.c & 1) ? a : b;
  if (undefish(c)) return undefOf(t);
  if (a.k == K::Agg) { auto x = aggN(a), y = aggN(b); return mkAgg(x->v.size(), [&](unsigned i) { Type *et = t->isVectorTy() ? cast<FixedVectorType>(t)->getElementType() : t->isArrayTy() ? t->getArrayElementType() : cast<StructType>(t)->getElementType(i); return select1(c, x->v[i], y->v[i], et); }); }
  if (a.isInt() && b.isInt() && a.c == b.c) return a;
  if (a.k == b.k && a.p.p == b.p.p && !a.isInt() && a.k != K::Undef) return a;
  if (undefish(a) || undefish(b) || a.k == K::Real || b.k == K::Real || t->isPointerTy()) return branch(*st, bl(c)) ? a : b;
  u32 w = twidth(t);
  if (w == 1) return mkSym(z3::ite(bl(c), bl(a), bl(b)).simplify(), 1);
  if (a.k == K::Fp || b.k == K::Fp) return mkFp(z3::ite(bl(c), toFp(a), toFp(b)), w);
  return mkSym(z3::ite(bl(c), bv(a), bv(b)).simplify(), w);
}

Val Engine::lanes2(Type *t, const Val &a, const Val &b, std::function<Val(const Val &, const Val &, Type *)> f) {
  if (auto *v = dyn_cast<FixedVectorType>(t)) return mkAgg(v->getNumElements(), [&](unsigned i) { return f(aggN(a)->v[i], aggN(b)->v[i], v->getElementType()); });
  return f(a, b, t);
}

// ---- libm
std::string Engine::realKey(const Val &v) {
  Val r = asReal(v); auto n = realN(r);
  std::string k = som(n->num).to_string(); if (n->den) k += " / " + som(*n->den).to_string(); return k;
}
Val Engine::realVar(const std::string &key, const std::string &base, const Val *arg, u32 w, double M) {
  auto it = st->real.find(key);
  expr v(C()); int pr = arg && arg->k == K::Real ? realN(*arg)->prec : 255;
  if (it == st->real.end()) {
    v = C().real_const((base + "!" + std::to_string(varno++)).c_str());
    Val x = mkReal(v, std::nullopt, M, -100, false, w, pr);
    st->real[key] = {x, arg ? *arg : Val()};
    return x;
  }
  auto m = realN(it->second.first); return mkReal(m->num, std::nullopt, m->M, m->g, false, w, pr);
}
Val Engine::fmath(const std::string &n, std::vector<Val> a, u32 w) {
  for (auto &x : a) if (undefish(x)) return Val::U(w);
  bool conc = true, real = false;
  for (auto &x : a) { if (!x.isInt()) conc = false; if (x.k == K::Real) real = true; }
  if (w > 64 && !real) throw Unsupported{"long double math"};
  expr zero = C().real_val(0);
  if (conc) {
    double x = fpv(a[0]), y = a.size() > 1 ? fpv(a[1]) : 0, z = a.size() > 2 ? fpv(a[2]) : 0; float fx = (float)x, fy = (float)y, fz = (float)z;
#define F1(N) if (n == #N) return w == 32 ? fpcf(N##f(fx)) : fpc(N(x), 64);
#define F2(N) if (n == #N) return w == 32 ? fpcf(N##f(fx, fy)) : fpc(N(x, y), 64);
    F1(sqrt) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh) F1(exp) F1(exp2) F1(expm1) F1(log) F1(log2) F1(log10) F1(log1p) F1(cbrt) F1(fabs) F1(floor) F1(ceil) F1(trunc) F1(round) F1(rint) F1(nearbyint) F1(roundeven)
    F2(atan2) F2(pow) F2(hypot) F2(fmod) F2(copysign) F2(fmin) F2(fmax) F2(fdim) F2(remainder)
    if (n == "fma") return w == 32 ? fpcf(fmaf(fx, fy, fz)) : fpc(fma(x, y, z), 64);
    throw Unsupported{"math function " + n};
  }
  if (real) {
    if (n == "fabs") { Val x = asReal(a[0]); auto m = realN(x); expr s = m->den ? som(m->num * *m->den) : m->num; return branch(*st, s < zero) ? fneg(x) : x; }
    if (n == "fma") return fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], w), a[2], w);
    if (n == "fmin" || n == "fmax") { Val lt = fcmp(CmpInst::FCMP_OLT, a[0], a[1]); bool l = branchV(*st, lt); return (l == (n == "fmin")) ? a[0] : a[1]; }
    if (n == "copysign") { Val ab = fmath("fabs", {a[0]}, w); Val neg = fcmp(CmpInst::FCMP_OLT, a[1], fpc(0, a[1].w)); return branchV(*st, neg) ? fneg(ab) : ab; }
    if (n == "sqrt") {
      Val x = asReal(a[0]); auto m = realN(x);
      expr s = m->den ? som(m->num * *m->den) : m->num;
      if (branch(*st, s < zero)) throw Abort{"fpdomain", "square root of a negative value"};
      bool fresh = !st->real.count("sqrt:" + realKey(x));
      Val r = realVar("sqrt:" + realKey(x), "sqrt", &x, w, std::sqrt(m->M) + 1);
      if (fresh) {
        expr v = realN(r)->num;
        addPC(*st, v >= zero);
        addPC(*st, m->den ? (v * v * *m->den == m->num) : (v * v == m->num));
        st->model.reset();
      }
      return r;
    }
    if (n == "hypot") { Val s = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[0], w), fbin(Instruction::FMul, a[1], a[1], w), w); return fmath("sqrt", {s}, w); }
    if (n == "pow" && a[1].isInt()) {
      double e = fpv(a[1]);
      if (e == 2) return fbin(Instruction::FMul, a[0], a[0], w);
      if (e == 1) return a[0];
      if (e == 3) return fbin(Instruction::FMul, a[0], fbin(Instruction::FMul, a[0], a[0], w), w);
      if (e == 0.5) return fmath("sqrt", a, w);
      if (e == -1) return fbin(Instruction::FDiv, fpc(1, w), a[0], w);
    }
    std::string key = n + ":"; for (auto &x : a) key += realKey(x) + ";";
    bool fresh = !st->real.count(key);
    Val x0 = a[0];
    double bound = (n == "sin" || n == "cos" || n == "tanh") ? 1 : 1e300;
    Val r = realVar(key, n, &x0, w, bound);
    if (fresh && (n == "sin" || n == "cos")) {
      expr v = realN(r)->num; addPC(*st, v >= -1 && v <= 1);
      std::string other = (n == "sin" ? "cos:" : "sin:") + key.substr(4);
      auto it = st->real.find(other);
      if (it != st->real.end()) { expr u = realN(it->second.first)->num; addPC(*st, u * u + v * v == 1); }
      st->model.reset();
    }
    if (fresh && n == "tan") {
      // tan(x)*cos(x) == sin(x), cos(x) != 0 (the harness keeps x off the poles)
      std::string k = key.substr(4);
      Val s = fmath("sin", a, w), c = fmath("cos", a, w);
      addPC(*st, realN(c)->num != 0); addPC(*st, realN(r)->num * realN(c)->num == realN(s)->num); st->model.reset();
    }
    return r;
  }
  expr x = toFp(a[0]);
  auto rnd1 = [&](Z3_ast rm) { return mkFp(wrapE(Z3_mk_fpa_round_to_integral(C(), rm, x)), w); };
  if (n == "fabs") { if (a[0].k == K::Fp) return mkFp(wrapE(Z3_mk_fpa_abs(C(), x)), w); return mkSym((bv(a[0]) & bvnum(mask(w - 1), w)).simplify(), w); }
  if (n == "sqrt") return mkFp(wrapE(Z3_mk_fpa_sqrt(C(), rne(), x)), w);
  if (n == "floor") return rnd1(Z3_mk_fpa_rtn(C())); if (n == "ceil") return rnd1(Z3_mk_fpa_rtp(C())); if (n == "trunc") return rnd1(Z3_mk_fpa_rtz(C()));
  if (n == "round") return rnd1(Z3_mk_fpa_rna(C())); if (n == "rint" || n == "nearbyint" || n == "roundeven") return rnd1(Z3_mk_fpa_rne(C()));
  if (n == "copysign") return mkSym(((bv(a[0]) & bvnum(mask(w - 1), w)) | (bv(a[1]) & bvnum(1ull << (w - 1), w))).simplify(), w);
  if (n == "fmin") { expr y = toFp(a[1]); return mkFp(wrapE(Z3_mk_fpa_min(C(), x, y)), w); }
  if (n == "fmax") { expr y = toFp(a[1]); return mkFp(wrapE(Z3_mk_fpa_max(C(), x, y)), w); }
  if (n == "fma") return mkFp(wrapE(Z3_mk_fpa_fma(C(), rne(), x, toFp(a[1]), toFp(a[2]))), w);
  // uninterpreted
  z3::sort so = fpsort(w); z3::sort_vector dom(C()); z3::expr_vector ar(C());
  for (auto &q : a) { dom.push_back(fpsort(q.w)); ar.push_back(toFp(q)); }
  z3::func_decl f = z3::function((n + std::to_string(w)).c_str(), dom, so);
  { std::vector<z3::expr> as; for (unsigned i = 0; i < ar.size(); i++) as.push_back(ar[i]); st->libm.push_back({n, w, as, f(ar)}); }
  return mkFp(f(ar), w);
}
