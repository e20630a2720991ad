#pragma once
#include "state.hpp"

inline u64 mask(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, u32 w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }

inline expr bvnum(u64 v, u32 w) { return C().bv_val((uint64_t)v, w); }

inline Val mkSym(expr e, u32 w) {
  if (w == 1) {
    if (e.is_true()) return Val::I(1, 1);
    if (e.is_false()) return Val::I(1, 0);
  } else if (w <= 64 && e.is_numeral()) {
    uint64_t x; if (e.is_numeral_u64(x)) return Val::I(w, x);
  }
  Val v; v.k = K::Sym; v.w = w; v.p = Ref<Node>(new SymNode(e)); return v;
}
inline const expr &symE(const Val &v) { return static_cast<SymNode *>(v.p.p)->e; }
inline RealNode *realN(const Val &v) { return static_cast<RealNode *>(v.p.p); }
inline AggNode *aggN(const Val &v) { return static_cast<AggNode *>(v.p.p); }
inline MixNode *mixN(const Val &v) { return static_cast<MixNode *>(v.p.p); }
inline FpNode *fpN(const Val &v) { return static_cast<FpNode *>(v.p.p); }

inline z3::sort fpsort(u32 w) { return w == 32 ? C().fpa_sort(8, 24) : C().fpa_sort(11, 53); }
inline expr wrapE(Z3_ast a) { C().check_error(); return expr(C(), a); }
inline expr rne() { return wrapE(Z3_mk_fpa_rne(C())); }
inline expr rtz() { return wrapE(Z3_mk_fpa_rtz(C())); }

expr bv(const Val &v); // BV of width w (bool lifted to BV1)
inline expr bl(const Val &v) { // boolean of an i1
  if (v.k == K::Int) return C().bool_val((v.c & 1) != 0);
  if (v.k == K::Sym) return symE(v);
  throw Abort{"uninit", "use of an uninitialised value in a condition"};
}
inline expr toFp(const Val &v) {
  if (v.k == K::Fp) return fpN(v)->e;
  if (v.k == K::Int) return wrapE(Z3_mk_fpa_to_fp_bv(C(), bvnum(v.c, v.w), fpsort(v.w)));
  if (v.k == K::Sym) { auto n = static_cast<SymNode *>(v.p.p); if (!n->fp) n->fp = wrapE(Z3_mk_fpa_to_fp_bv(C(), n->e, fpsort(v.w))); return *n->fp; }
  if (v.k == K::Real) throw Unsupported{"real value used as IEEE float"};
  throw Abort{"uninit", "use of an uninitialised floating-point value"};
}
inline expr bv(const Val &v) {
  switch (v.k) {
  case K::Int: return bvnum(v.c, v.w);
  case K::Sym: if (v.w == 1) return z3::ite(symE(v), bvnum(1, 1), bvnum(0, 1)); return symE(v);
  case K::Fp: { auto n = fpN(v); if (!n->bits) n->bits = wrapE(Z3_mk_fpa_to_ieee_bv(C(), n->e)); return *n->bits; }
  case K::Real: throw Unsupported{"bits of a real-mode value"};
  case K::Undef: case K::Mix: throw Abort{"uninit", "use of an uninitialised value"};
  default: throw Unsupported{"bits of aggregate"};
  }
}
inline Val mkFp(expr e, u32 w) {
  Val v; v.k = K::Fp; v.w = w; v.p = Ref<Node>(new FpNode(e)); return v;
}
inline bool undefish(const Val &v) { return v.k == K::Undef || v.k == K::Mix; }

// ---- cells
inline void toCells(const Val &v, u32 nbytes, std::vector<Cell> &out) {
  switch (v.k) {
  case K::Int: for (u32 i = 0; i < nbytes; i++) out.push_back(Cell::C(i < 8 ? (u8)(v.c >> (8 * i)) : 0)); return;
  case K::Undef: for (u32 i = 0; i < nbytes; i++) out.push_back(Cell()); return;
  case K::Mix: { auto &c = mixN(v)->c; for (u32 i = 0; i < nbytes; i++) out.push_back(i < c.size() ? c[i] : Cell()); return; }
  case K::Agg: throw Unsupported{"toCells agg"};
  default: {
    Val x = v;
    if (v.k == K::Sym && v.w != nbytes * 8) x = mkSym(z3::zext(bv(v), nbytes * 8 - v.w), nbytes * 8);
    Ref<BoxNode> b(new BoxNode); b->v = x;
    for (u32 i = 0; i < nbytes; i++) { Cell c; c.k = 2; c.idx = (uint16_t)i; c.v = b; out.push_back(c); }
  } }
}
inline Val fromCells(const Cell *c, u32 n, u32 w) {
  bool allc = true, anyu = false, allu = true, same = true;
  for (u32 i = 0; i < n; i++) {
    if (c[i].k != 1) allc = false;
    if (c[i].k == 0) anyu = true; else allu = false;
    if (c[i].k != 2 || c[i].idx != i || c[i].v.p != c[0].v.p) same = false;
  }
  if (allu) return Val::U(w);
  if (allc && n <= 8) { u64 x = 0; for (u32 i = 0; i < n; i++) x |= (u64)c[i].b << (8 * i); return Val::I(w, x); }
  if (same && c[0].v->v.w == n * 8) {
    const Val &v = c[0].v->v;
    if (v.w == w) return v;
    if (v.k == K::Sym) { if (w == 1) return mkSym((symE(v).extract(0, 0) == bvnum(1, 1)).simplify(), 1); return mkSym(symE(v).extract(w - 1, 0), w); }
  }
  bool partialReal = false;
  for (u32 i = 0; i < n; i++) if (c[i].k == 2 && c[i].v->v.k == K::Real) partialReal = true;
  if (anyu || partialReal) { Val v; v.k = K::Mix; v.w = w; auto *m = new MixNode; m->c.assign(c, c + n); v.p = Ref<Node>(m); return v; }
  std::optional<expr> e;
  for (u32 i = 0; i < n;) {
    u32 j = i + 1; expr part(C());
    if (c[i].k == 1) part = bvnum(c[i].b, 8);
    else {
      while (j < n && c[j].k == 2 && c[j].v.p == c[i].v.p && c[j].idx == c[j - 1].idx + 1) j++;
      expr b = bv(c[i].v->v);
      u32 lo = c[i].idx * 8, hi = lo + (j - i) * 8 - 1;
      part = (lo == 0 && hi + 1 == c[i].v->v.w) ? b : b.extract(hi, lo);
    }
    e = e ? z3::concat(part, *e) : part;
    i = j;
  }
  expr r = e->simplify();
  if (w == 1) return mkSym((r.extract(0, 0) == bvnum(1, 1)).simplify(), 1);
  if (w < n * 8) r = r.extract(w - 1, 0).simplify();
  return mkSym(r, w);
}
inline Val mixVal(std::vector<Cell> c, u32 w) { return fromCells(c.data(), (u32)c.size(), w); }

// ---- reals
inline expr rnum(double d) {
  // exact rational of a finite double
  int ex; double m = std::frexp(d, &ex);
  i64 mi = (i64)std::ldexp(m, 53); ex -= 53;
  while (mi && !(mi & 1)) { mi /= 2; ex++; }
  if (mi == 0) return C().real_val(0);
  expr r = C().real_val((int64_t)mi);
  std::string s = "1"; 
  if (ex != 0) {
    // 2^|ex| as decimal via z3 power of big ints: build by repeated multiplication
    int a = std::abs(ex);
    expr p = C().real_val(1);
    expr chunk = C().real_val((int64_t)(1ll << 30));
    while (a >= 30) { p = p * chunk; a -= 30; }
    p = (p * C().real_val((int64_t)(1ll << a))).simplify();
    r = (ex > 0 ? r * p : r / p).simplify();
  }
  return r;
}
inline expr pow2real(int a) { // 2^a, a >= 0
  expr p = C().real_val(1), chunk = C().real_val((int64_t)(1ll << 30));
  while (a >= 30) { p = p * chunk; a -= 30; }
  return (p * C().real_val((int64_t)(1ll << a))).simplify();
}
inline double fpv(const Val &v) {
  if (v.w == 32) { float f; u32 b = (u32)v.c; memcpy(&f, &b, 4); return f; }
  double d; memcpy(&d, &v.c, 8); return d;
}
inline Val fpc(double d, u32 w) {
  if (w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return Val::I(32, b); }
  u64 b; memcpy(&b, &d, 8); return Val::I(64, b);
}
inline Val fpcf(float f) { u32 b; memcpy(&b, &f, 4); return Val::I(32, b); }

inline expr som(const expr &e) { z3::params p(C()); p.set("som", true); p.set("flat", true); return e.simplify(p); }
inline Val mkReal(expr num, std::optional<expr> den, double M, int g, bool exact, u32 w, int pr = 255, bool rounded = true) {
  auto *n = new RealNode(num); n->den = den; n->M = M; n->g = g;
  int prec = w == 32 ? 24 : w == 64 ? 53 : 64; n->prec = rounded ? std::min(pr, prec) : pr;
  n->exact = exact && !den && std::isfinite(M) && M <= std::ldexp(1.0, prec + g);
  Val v; v.k = K::Real; v.w = w; v.p = Ref<Node>(n); return v;
}
// The extended type (80 bits) has no bit-level semantics here: its values are always exact reals.
inline Val ld80(bool neg, u64 mant, int ex) { // (+-) mant * 2^ex
  if (ex > 2000 || ex < -2000) throw Unsupported{"long double constant out of the range of the encoding"};
  int g = ex; u64 m = mant; while (m && !(m & 1)) { m >>= 1; g++; }
  expr r = C().real_val(std::to_string(m).c_str());
  if (m && g > 0) r = (r * pow2real(g)).simplify(); else if (m && g < 0) r = (r / pow2real(-g)).simplify();
  if (neg) r = (-r).simplify();
  return mkReal(r, std::nullopt, std::ldexp((double)mant, ex), m ? g : 0, true, 80, 255, false);
}
inline Val ld80bits(u64 mant, u32 se) {
  u32 e = se & 0x7fff; if (e == 0x7fff) throw Unsupported{"non-finite long double"};
  return ld80(se >> 15, mant, mant ? (int)e - 16383 - 63 : 0);
}
inline Val asReal(const Val &v) {
  if (v.k == K::Real) return v;
  if (v.k == K::Int) {
    double d = fpv(v);
    if (!std::isfinite(d)) throw Unsupported{"non-finite constant meets a real-mode value"};
    int g = 0; if (d != 0) { int ex; double m = std::frexp(d, &ex); i64 mi = (i64)std::ldexp(m, 53); g = ex - 53; while (!(mi & 1)) { mi /= 2; g++; } }
    return mkReal(rnum(d), std::nullopt, std::fabs(d), g, true, v.w, 255, false);
  }
  if (undefish(v)) throw Abort{"uninit", "use of an uninitialised floating-point value"};
  throw Unsupported{"IEEE symbolic float meets a real-mode value"};
}
