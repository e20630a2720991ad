#pragma once
#include "value_ops.hpp"

struct Violation { std::string kind, msg, loc; std::vector<std::vector<std::string>> inputs; std::string sched; std::string func; };

struct Opts {
  std::string entry, out; unsigned qtimeout = 20000; u64 maxpaths = 200000; u64 maxsteps = 3000000; double timebudget = 600; u64 seed = 1;
  int maxviol = 6; int samples = 6; bool verbose = false; int cands = 4;
  bool selftest = false;
};
extern Opts O;

struct Engine {
  Module *M; const DataLayout *DL;
  std::unordered_map<const Function *, std::unique_ptr<PFunc>> pf;
  std::unordered_map<const GlobalValue *, u64> gaddr;
  std::unordered_map<u64, Function *> faddr;
  std::unordered_map<std::string, u64> dummyTI; std::unordered_map<u64, std::string> tiName;
  std::vector<State *> work;
  PSolver solver;
  State *st = nullptr; // state being executed
  u64 nextState = 1;
  std::vector<Violation> viols; std::set<std::string> violKeys;
  std::map<std::string, u64> reached; std::map<std::string, u64> checks;
  std::set<std::string> incon; std::map<std::string, std::string> unsup;
  std::set<std::string> stubs;
  struct Sample { std::vector<std::string> in, obs; };
  std::vector<Sample> samples; u64 sampleSeen = 0;
  double t0 = 0; bool stop = false; std::string stopReason;
  u64 rng;
  unsigned varno = 0;

  Engine() : solver(O.qtimeout) { rng = O.seed * 2654435761u + 12345; }
  u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

  // ---------------------------------------------------------------- solver
  static expr strip(const expr &c, bool &neg) {
    neg = false; expr e = c;
    while (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT) { e = e.arg(0); neg = !neg; }
    return e;
  }
  void addPC(State &s, const expr &c) {
    if (c.is_true()) return;
    if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND) { for (unsigned i = 0; i < c.num_args(); i++) addPC(s, c.arg(i)); return; }
    s.pcs.push_back(c);
    bool n; expr e = strip(c, n); s.known[Z3_get_ast_id(C(), e)] = !n;
  }
  static int evalB(z3::model &m, const expr &e) {
    expr r = m.eval(e, true);
    if (r.is_true()) return 1; if (r.is_false()) return 0; return -1;
  }
  void ensureModel(State &s) {
    if (s.model) return;
    R r = solver.check(s.pcs, {});
    if (r == R::Unsat) throw Infeasible{};
    if (r == R::Sat) s.model = solver.model;
  }
  bool branch(State &s, const expr &c0) {
    expr c = c0.simplify();
    if (c.is_true()) return true; if (c.is_false()) return false;
    bool n; expr e = strip(c, n);
    auto it = s.known.find(Z3_get_ast_id(C(), e));
    if (it != s.known.end()) return it->second != n;
    expr nc = !c;
    ensureModel(s);
    int side = s.model ? evalB(*s.model, c) : -1;
    if (side >= 0) {
      S.modelhits++;
      const expr &other = side ? nc : c, &mine = side ? c : nc;
      R r = solver.check(s.pcs, {other});
      if (r == R::Unsat) { s.known[Z3_get_ast_id(C(), e)] = (side == 1) != n; keep.push_back(e); return side == 1; }
      auto m2 = solver.model;
      State *o = clone(s);
      addPC(*o, other);
      if (r == R::Sat) o->model = m2; else o->model.reset();
      push(o);
      addPC(s, mine);
      return side == 1;
    }
    R rt = solver.check(s.pcs, {c}); auto mt = solver.model;
    R rf = solver.check(s.pcs, {nc}); auto mf = solver.model;
    if (rt == R::Unsat && rf == R::Unsat) throw Infeasible{};
    if (rt == R::Unsat) { addPC(s, nc); if (rf == R::Sat) s.model = mf; return false; }
    if (rf == R::Unsat) { addPC(s, c); if (rt == R::Sat) s.model = mt; return true; }
    State *o = clone(s); addPC(*o, nc); o->model.reset(); if (rf == R::Sat) o->model = mf; push(o);
    addPC(s, c); s.model.reset(); if (rt == R::Sat) s.model = mt;
    return true;
  }
  std::vector<expr> keep;
  bool branchV(State &s, const Val &v) {
    if (v.k == K::Int) return v.c & 1;
    if (v.k == K::Sym) return branch(s, symE(v));
    throw Abort{"uninit", "branch on an uninitialised value"};
  }
  u64 concretize(State &s, const Val &v) {
    if (v.k == K::Int) return v.c;
    if (undefish(v)) throw Abort{"uninit", "use of an uninitialised value as an address, size or index"};
    expr e = bv(v).simplify();
    uint64_t x; if (e.is_numeral_u64(x)) return x;
    ensureModel(s);
    if (!s.model) { R r = solver.check(s.pcs, {}); if (r != R::Sat) throw Unsupported{"cannot concretise (solver unknown)"}; s.model = solver.model; }
    expr m = s.model->eval(e, true);
    if (!m.is_numeral_u64(x)) throw Unsupported{"cannot concretise"};
    S.concretized++;
    if (!branch(s, e == bvnum(x, e.get_sort().bv_size()))) throw Unsupported{"concretise: model mismatch"};
    return x;
  }
  State *clone(State &s) { S.forks++; State *n = new State(s); n->id = nextState++; return n; }
  void push(State *s) { work.push_back(s); if (work.size() > 100000) { stop = true; stopReason = "worklist limit"; } }

  // ---------------------------------------------------------------- memory
  std::string where() {
    std::string r; if (!st) return r;
    auto &T = st->th[st->cur];
    int n = 0;
    for (int i = (int)T.st.size() - 1; i >= 0 && n < 6; i--, n++) {
      auto &f = T.st[i]; auto &b = f.f->bbs[f.bb];
      std::string l;
      if (f.ip < (int)b.ins.size()) if (auto d = b.ins[f.ip].I->getDebugLoc()) { l = std::string(d->getFilename()) + ":" + std::to_string(d.getLine()); }
      if (!r.empty()) r += " <- ";
      std::string d = f.f->dem; if (d.size() > 110) d = d.substr(0, 110) + "~";
      r += d + (l.empty() ? "" : " (" + l + ")");
    }
    return r;
  }
  Ref<Obj> &findObj(State &s, u64 a, u64 n, const char *what) {
    S.memchecks++;
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
      --it; Obj &o = *it->second;
      if (a >= o.base && a + n <= o.base + o.size && a + n >= a) {
        if (!o.live) throw Abort{"memory", std::string(what) + " of an object whose lifetime has ended (" + o.name + ")"};
        return it->second;
      }
      if (a >= o.base && a < o.base + o.size + 16)
        throw Abort{"memory", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string(a - o.base) + " of a " + std::to_string(o.size) + "-byte " + (o.kind == OK::Heap ? "heap block" : o.kind == OK::Stack ? "stack object " + o.name : "global " + o.name)};
    }
    if (a < 4096) throw Abort{"memory", std::string(what) + " through a null pointer (address " + std::to_string(a) + ")"};
    throw Abort{"memory", std::string(what) + " at an address with no live object (out of bounds, freed or dangling)"};
  }
  Obj &wr(Ref<Obj> &r) { if (r->rc > 1) { Obj *n = new Obj(*r); n->rc = 0; r = Ref<Obj>(n); } return *r; }
  void raceR(State &s, u64 a, u64 n) {
    if (!s.mt) return;
    auto &ref = findObj(s, a, n, "read"); if (ref->ro) return;
    Obj &o = wr(ref); if (o.acc.empty()) o.acc.resize(o.size);
    int t = s.cur; auto &vc = s.th[t].vc;
    for (u64 i = a - o.base; i < a - o.base + n; i++) {
      auto &x = o.acc[i];
      if (x.wt >= 0 && x.wt != t && (x.wt >= (int)vc.size() || x.wc > vc[x.wt])) throw Abort{"race", "data race: non-atomic read of memory written concurrently by another thread"};
      if (x.rd.size() <= (size_t)t) x.rd.resize(t + 1); x.rd[t] = vc[t];
    }
  }
  void raceW(State &s, Obj &o, u64 a, u64 n) {
    if (!s.mt) return;
    if (o.acc.empty()) o.acc.resize(o.size);
    int t = s.cur; auto &vc = s.th[t].vc;
    for (u64 i = a - o.base; i < a - o.base + n; i++) {
      auto &x = o.acc[i];
      if (x.wt >= 0 && x.wt != t && (x.wt >= (int)vc.size() || x.wc > vc[x.wt])) throw Abort{"race", "data race: non-atomic write to memory written concurrently by another thread"};
      for (size_t u = 0; u < x.rd.size(); u++) if ((int)u != t && x.rd[u] > (u < vc.size() ? vc[u] : 0)) throw Abort{"race", "data race: non-atomic write to memory read concurrently by another thread"};
      x.wt = t; x.wc = vc[t]; x.rd.clear();
    }
  }
  void readCells(State &s, u64 a, u64 n, std::vector<Cell> &out) {
    if (!n) return;
    auto &o = findObj(s, a, n, "read");
    raceR(s, a, n);
    auto &o2 = findObj(s, a, n, "read"); (void)o;
    out.insert(out.end(), o2->m.begin() + (a - o2->base), o2->m.begin() + (a - o2->base) + n);
  }
  void writeCells(State &s, u64 a, const std::vector<Cell> &in) {
    if (in.empty()) return;
    auto &r = findObj(s, a, in.size(), "write");
    if (r->ro) throw Abort{"memory", "write to constant memory " + r->name};
    Obj &o = wr(r);
    raceW(s, o, a, in.size());
    std::copy(in.begin(), in.end(), o.m.begin() + (a - o.base));
  }
  u64 alloc(State &s, u64 size, u64 align, OK kind, const std::string &name) {
    if (align < 1) align = 1;
    // exactly `align`-aligned, never more (adversarial)
    u64 b = s.bump; u64 al2 = align * 2;
    b = (b + al2 - 1) / al2 * al2 + align;
    s.bump = b + size + 128;
    Obj *o = new Obj; o->base = b; o->size = size; o->kind = kind; o->name = name; o->id = s.nobj++;
    o->m.resize(size);
    s.mem[b] = Ref<Obj>(o);
    if (kind == OK::Heap) s.liveheap++;
    return b;
  }
  void freeHeap(State &s, u64 a, i64 size) {
    if (!a) return;
    auto it = s.mem.find(a);
    if (it == s.mem.end()) throw Abort{"memory", "free of an address that is not a live heap block (double free or invalid pointer)"};
    Obj &o = *it->second;
    if (o.kind != OK::Heap) throw Abort{"memory", "free of a non-heap object " + o.name};
    if (size >= 0 && (u64)size != o.size) throw Abort{"memory", "sized delete with size " + std::to_string(size) + " of a block of " + std::to_string(o.size) + " bytes"};
    if (s.mt) { raceW(s, wr(it->second), o.base, o.size); }
    s.mem.erase(it); s.liveheap--;
  }

  // ---------------------------------------------------------------- typed access
  u64 tsize(Type *t) { return DL->getTypeStoreSize(t); }
  u32 twidth(Type *t) { if (t->isPointerTy()) return 64; return (u32)t->getPrimitiveSizeInBits().getFixedValue(); }
  Val undefOf(Type *t) {
    if (auto *a = dyn_cast<ArrayType>(t)) return mkAgg(a->getNumElements(), [&](unsigned) { return undefOf(a->getElementType()); });
    if (auto *a = dyn_cast<FixedVectorType>(t)) return mkAgg(a->getNumElements(), [&](unsigned) { return undefOf(a->getElementType()); });
    if (auto *a = dyn_cast<StructType>(t)) return mkAgg(a->getNumElements(), [&](unsigned i) { return undefOf(a->getElementType(i)); });
    return Val::U(twidth(t));
  }
  Val zeroOf(Type *t) {
    if (auto *a = dyn_cast<ArrayType>(t)) return mkAgg(a->getNumElements(), [&](unsigned) { return zeroOf(a->getElementType()); });
    if (auto *a = dyn_cast<FixedVectorType>(t)) return mkAgg(a->getNumElements(), [&](unsigned) { return zeroOf(a->getElementType()); });
    if (auto *a = dyn_cast<StructType>(t)) return mkAgg(a->getNumElements(), [&](unsigned i) { return zeroOf(a->getElementType(i)); });
    u32 w = twidth(t);
    if (t->isX86_FP80Ty()) return ld80(false, 0, 0);
    if (w > 64) return mkSym(C().bv_val(0, w), w);
    return Val::I(w, 0);
  }
  template <class F> static Val mkAgg(u64 n, F f) { auto *a = new AggNode; a->v.reserve(n); for (u64 i = 0; i < n; i++) a->v.push_back(f((unsigned)i)); Val v; v.k = K::Agg; v.w = 0; v.p = Ref<Node>(a); return v; }

  void flatten(const Val &v, Type *t, std::vector<Cell> &out) {
    if (auto *a = dyn_cast<ArrayType>(t)) {
      u64 es = DL->getTypeAllocSize(a->getElementType());
      for (u64 i = 0; i < a->getNumElements(); i++) { size_t b = out.size(); flatten(aggN(v)->v[i], a->getElementType(), out); out.resize(b + es); }
      return;
    }
    if (auto *a = dyn_cast<FixedVectorType>(t)) {
      if (twidth(a->getElementType()) % 8) {
        u32 n = a->getNumElements(), w = twidth(a->getElementType());
        if (w != 1) throw Unsupported{"odd vector in memory"};
        Val x = packBits(v, n); toCells(x, (n + 7) / 8, out); return;
      }
      for (u64 i = 0; i < a->getNumElements(); i++) flatten(aggN(v)->v[i], a->getElementType(), out);
      return;
    }
    if (auto *a = dyn_cast<StructType>(t)) {
      auto *L = DL->getStructLayout(a); size_t b = out.size();
      for (u64 i = 0; i < a->getNumElements(); i++) { out.resize(b + L->getElementOffset(i)); flatten(aggN(v)->v[i], a->getElementType(i), out); }
      out.resize(b + L->getSizeInBytes());
      return;
    }
    toCells(v, (u32)tsize(t), out);
  }
  Val packBits(const Val &v, u32 n) {
    u64 c = 0; bool allc = true;
    for (u32 i = 0; i < n; i++) { auto &x = aggN(v)->v[i]; if (x.k != K::Int) { allc = false; } else c |= (x.c & 1) << (i & 63); }
    if (allc && n <= 64) return Val::I(n, c);
    std::optional<expr> e;
    for (u32 i = 0; i < n; i++) { expr b = bv(aggN(v)->v[i]); e = e ? z3::concat(b, *e) : b; }
    return mkSym(*e, n);
  }
  Val parse(const Cell *c, Type *t) {
    if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); return mkAgg(a->getNumElements(), [&](unsigned i) { return parse(c + i * es, a->getElementType()); }); }
    if (auto *a = dyn_cast<FixedVectorType>(t)) {
      u32 w = twidth(a->getElementType());
      if (w % 8) {
        if (w != 1) throw Unsupported{"odd vector in memory"};
        u32 n = a->getNumElements(); Val x = fromCells(c, (n + 7) / 8, (n + 7) / 8 * 8);
        return unpackBits(x, n);
      }
      return mkAgg(a->getNumElements(), [&](unsigned i) { return parse(c + i * (w / 8), a->getElementType()); });
    }
    if (auto *a = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(a); return mkAgg(a->getNumElements(), [&](unsigned i) { return parse(c + L->getElementOffset(i), a->getElementType(i)); }); }
    if (t->isX86_FP80Ty()) {
      u64 m = 0; u32 se = 0; bool k = true; for (u32 i = 0; i < 10; i++) { if (c[i].k != 1) { k = false; break; } if (i < 8) m |= (u64)c[i].b << (8 * i); else se |= (u32)c[i].b << (8 * (i - 8)); }
      if (k) return ld80bits(m, se);
    }
    return fromCells(c, (u32)tsize(t), twidth(t));
  }
  Val unpackBits(const Val &x, u32 n) {
    return mkAgg(n, [&](unsigned i) {
      if (undefish(x)) return Val::U(1);
      if (x.k == K::Int) return Val::I(1, x.c >> i);
      return mkSym((bv(x).extract(i, i) == bvnum(1, 1)).simplify(), 1);
    });
  }
  Val bitcast(const Val &v, Type *from, Type *to) {
    if (from == to) return v;
    if (from->isPointerTy() && to->isPointerTy()) return v;
    bool fv = from->isVectorTy(), tv = to->isVectorTy();
    if (!fv && !tv) return v; // scalars: same bits, same width
    if (fv && !tv && twidth(cast<VectorType>(from)->getElementType()) == 1) return packBits(v, cast<FixedVectorType>(from)->getNumElements());
    if (!fv && tv && twidth(cast<VectorType>(to)->getElementType()) == 1) return unpackBits(v, cast<FixedVectorType>(to)->getNumElements());
    std::vector<Cell> c; flatten(v, from, c); return parse(c.data(), to);
  }
  Val load(State &s, u64 a, Type *t) {
    std::vector<Cell> c; readCells(s, a, tsize(t), c);
    if (t->isAggregateType()) c.resize(DL->getTypeAllocSize(t));
    return parse(c.data(), t);
  }
  void store(State &s, u64 a, const Val &v, Type *t) {
    std::vector<Cell> c; flatten(v, t, c); c.resize(tsize(t)); writeCells(s, a, c);
  }
  std::string cstr(State &s, u64 a) {
    std::string r;
    for (int i = 0; i < 4096; i++) {
      std::vector<Cell> c; readCells(s, a + i, 1, c);
      if (c[0].k != 1) throw Unsupported{"non-concrete string"};
      if (!c[0].b) break; r += (char)c[0].b;
    }
    return r;
  }

  // ---------------------------------------------------------------- constants
  Val cval(const Constant *c) {
    Type *t = c->getType();
    if (auto *x = dyn_cast<ConstantInt>(c)) {
      if (x->getBitWidth() <= 64) return Val::I(x->getBitWidth(), x->getZExtValue());
      SmallString<64> s; x->getValue().toStringUnsigned(s); return mkSym(C().bv_val(s.c_str(), x->getBitWidth()), x->getBitWidth());
    }
    if (auto *x = dyn_cast<ConstantFP>(c)) {
      APInt b = x->getValueAPF().bitcastToAPInt();
      if (t->isX86_FP80Ty()) return ld80bits(b.getRawData()[0], (u32)(b.getRawData()[1] & 0xffff));
      if (b.getBitWidth() <= 64) return Val::I(b.getBitWidth(), b.getZExtValue());
      SmallString<64> s; b.toStringUnsigned(s); return mkSym(C().bv_val(s.c_str(), b.getBitWidth()), b.getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return Val::I(64, 0);
    if (isa<UndefValue>(c)) return undefOf(t);
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto *x = dyn_cast<ConstantDataSequential>(c)) return mkAgg(x->getNumElements(), [&](unsigned i) { return cval(x->getElementAsConstant(i)); });
    if (auto *x = dyn_cast<ConstantAggregate>(c)) return mkAgg(x->getNumOperands(), [&](unsigned i) { return cval(x->getOperand(i)); });
    if (auto *x = dyn_cast<GlobalAlias>(c)) return cval(x->getAliasee());
    if (auto *x = dyn_cast<GlobalValue>(c)) return Val::I(64, gaddr.at(x));
    if (auto *x = dyn_cast<ConstantExpr>(c)) {
      switch (x->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto *g = cast<GEPOperator>(x); APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        Val b = cval(x->getOperand(0)); return Val::I(64, b.c + off.getZExtValue());
      }
      case Instruction::BitCast: return bitcast(cval(x->getOperand(0)), x->getOperand(0)->getType(), t);
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { Val b = cval(x->getOperand(0)); return Val::I(twidth(t), b.c); }
      case Instruction::Sub: return Val::I(twidth(t), cval(x->getOperand(0)).c - cval(x->getOperand(1)).c);
      case Instruction::Add: return Val::I(twidth(t), cval(x->getOperand(0)).c + cval(x->getOperand(1)).c);
      case Instruction::ICmp: { Val a = cval(x->getOperand(0)), b = cval(x->getOperand(1)); bool eq = a.c == b.c; return Val::I(1, x->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq); }
      default: throw Unsupported{"constant expression"};
      }
    }
    if (isa<ConstantTokenNone>(c)) return Val::U(0);
    throw Unsupported{"constant kind"};
  }

  // ---------------------------------------------------------------- function preparation
  PFunc *prep(Function *F) {
    auto &slot = pf[F];
    if (slot) return slot.get();
    slot.reset(new PFunc); PFunc *P = slot.get();
    P->F = F; P->name = F->getName().str(); P->dem = llvm::demangle(P->name);
    std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbi;
    std::unordered_map<const Value *, int> cons;
    for (auto &a : F->args()) { reg[&a] = P->nregs; P->args.push_back(P->nregs++); }
    int nb = 0; for (auto &b : *F) { bbi[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = P->nregs++; }
    auto opnd = [&](const Value *v) -> int {
      auto it = reg.find(v); if (it != reg.end()) return it->second;
      if (auto *c = dyn_cast<Constant>(v)) {
        auto jt = cons.find(v); if (jt != cons.end()) return jt->second;
        P->consts.push_back(cval(c)); int id = -(int)P->consts.size(); cons[v] = id; return id;
      }
      return 1 << 30; // labels, metadata, asm
    };
    P->bbs.resize(nb);
    nb = 0;
    for (auto &b : *F) {
      auto &B = P->bbs[nb++];
      for (auto &i : b) {
        if (auto *ph = dyn_cast<PHINode>(&i)) {
          PPhi q; q.dst = reg[&i];
          for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) q.in.push_back({bbi[ph->getIncomingBlock(k)], opnd(ph->getIncomingValue(k))});
          B.phis.push_back(q); continue;
        }
        if (isa<DbgInfoIntrinsic>(i)) continue;
        PInst p; p.I = &i; p.op = i.getOpcode(); if (!i.getType()->isVoidTy()) p.dst = reg[&i];
        if (auto *cb = dyn_cast<CallBase>(&i)) {
          for (auto &a : cb->args()) p.ops.push_back(isa<MetadataAsValue>(a.get()) ? (1 << 30) : opnd(a.get()));
          p.ops.push_back(opnd(cb->getCalledOperand()));
          if (auto *iv = dyn_cast<InvokeInst>(&i)) { p.b0 = bbi[iv->getNormalDest()]; p.b1 = bbi[iv->getUnwindDest()]; }
        } else if (auto *br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) { p.ops.push_back(opnd(br->getCondition())); p.b0 = bbi[br->getSuccessor(0)]; p.b1 = bbi[br->getSuccessor(1)]; }
          else p.b0 = bbi[br->getSuccessor(0)];
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
          p.ops.push_back(opnd(sw->getCondition())); p.b0 = bbi[sw->getDefaultDest()];
          auto *v = new std::vector<std::pair<u64, int>>; for (auto &c : sw->cases()) v->push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
          p.aux = v;
        } else for (auto &o : i.operands()) p.ops.push_back(opnd(o.get()));
        B.ins.push_back(p);
      }
    }
    return P;
  }

  // ---------------------------------------------------------------- execution
  std::vector<Frame> &stk() { return st->th[st->cur].st; }
  Frame &top() { return stk().back(); }
  const Val &val(Frame &f, int o) { if (o >= 0) return f.r[o]; return f.f->consts[-o - 1]; }
  void setDst(const PInst &in, const Val &v) { if (in.dst >= 0) top().r[in.dst] = v; }
  void jump(Frame &f, int bb) {
    int prev = f.bb; auto &B = f.f->bbs[bb];
    if (!B.phis.empty()) {
      std::vector<Val> nv; nv.reserve(B.phis.size());
      for (auto &p : B.phis) { bool ok = false; for (auto &i : p.in) if (i.first == prev) { nv.push_back(val(f, i.second)); ok = true; break; } if (!ok) throw Unsupported{"phi"}; }
      for (size_t i = 0; i < nv.size(); i++) f.r[B.phis[i].dst] = nv[i];
    }
    f.prev = prev; f.bb = bb; f.ip = 0;
  }
  void pushFrame(PFunc *P, const std::vector<Val> &args, const PInst *call) {
    if (stk().size() > 2000) throw Abort{"hang", "call depth over 2000"};
    Frame f; f.f = P; f.r.resize(P->nregs); f.call = call; P->entered++;
    for (size_t i = 0; i < P->args.size(); i++) f.r[P->args[i]] = i < args.size() ? args[i] : Val::U(64);
    for (size_t i = P->args.size(); i < args.size(); i++) f.va.push_back(args[i]);
    // byval arguments: copy
    auto *F = P->F;
    for (size_t i = 0; i < P->args.size(); i++) if (F->getArg(i)->hasByValAttr()) {
      Type *t = F->getArg(i)->getParamByValType(); u64 n = DL->getTypeAllocSize(t);
      u64 src = f.r[P->args[i]].c; std::vector<Cell> c; readCells(*st, src, n, c);
      u64 a = alloc(*st, n, std::max<u64>(8, F->getParamAlign(i).valueOrOne().value()), OK::Stack, "byval");
      writeCells(*st, a, c); f.allocas.push_back(a); f.r[P->args[i]] = Val::I(64, a);
    }
    stk().push_back(std::move(f));
  }
  void popFrame() { for (u64 a : top().allocas) st->mem.erase(a); stk().pop_back(); }
  // complete a call instruction of the current top frame with a value
  void finish(const PInst &in, const Val &v) {
    if (in.dst >= 0) top().r[in.dst] = v;
    if (in.op == Instruction::Invoke) jump(top(), in.b0); else top().ip++;
  }
  int tiId(u64 a) { return (int)((a >> 3) & 0x7fffffff); }
  bool tiMatch(u64 thrown, u64 want) {
    if (want == 0 || thrown == want) return true;
    // derived class?
    for (auto &g : M->globals()) if (gaddr[&g] == thrown && g.hasInitializer()) {
      auto *cs = dyn_cast<ConstantStruct>(g.getInitializer()); if (!cs) return false;
      for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) { u64 b = cval(cs->getOperand(i)).c; if (tiMatch(b, want)) return true; }
    }
    auto it = tiName.find(thrown);
    if (it != tiName.end() && it->second.rfind("_ZTISt", 0) == 0) { auto w = tiName.find(want); if (w != tiName.end() && w->second == "_ZTISt9exception") return true;
      if (w != tiName.end() && w->second == "_ZTISt11logic_error" && (it->second == "_ZTISt12length_error" || it->second == "_ZTISt12out_of_range" || it->second == "_ZTISt16invalid_argument")) return true; }
    return false;
  }
  u64 tiAddr(const std::string &n) {
    if (auto *g = M->getNamedGlobal(n)) return gaddr[g];
    auto &x = dummyTI[n]; if (!x) { x = 0x70000000 + dummyTI.size() * 64; tiName[x] = n; } return x;
  }
  void unwind() { // th.inflight is set
    auto &T = st->th[st->cur]; Exc &e = st->excs[T.inflight];
    while (true) {
      if (T.st.empty()) throw Abort{"terminate", "exception escapes every handler (std::terminate)"};
      Frame &f = T.st.back(); auto &in = f.f->bbs[f.bb].ins[f.ip];
      if (in.op == Instruction::Invoke) {
        auto *lp = cast<InvokeInst>(in.I)->getLandingPadInst();
        bool take = lp->isCleanup(); u64 sel = 0; bool matched = false;
        for (unsigned i = 0; i < lp->getNumClauses() && !matched; i++) {
          if (lp->isCatch(i)) { u64 want = cval(lp->getClause(i)).c; if (tiMatch(e.ti, want)) { matched = true; sel = want; } }
          else throw Abort{"terminate", "exception specification violated"};
        }
        if (matched || take) {
          jump(f, in.b1);
          auto &li = f.f->bbs[f.bb].ins[f.ip];
          if (li.op != Instruction::LandingPad) throw Unsupported{"landingpad position"};
          std::vector<Val> parts{Val::I(64, T.inflight), Val::I(32, matched ? (sel ? tiId(sel) : 0x7fffffff) : 0)};
          f.r[li.dst] = mkAgg(2, [&](unsigned i) { return parts[i]; });
          f.ip++;
          return;
        }
      }
      popFrame();
      if (T.st.empty()) throw Abort{"terminate", "exception escapes every handler (std::terminate)"};
    }
  }
  void throwNew(u64 obj, u64 ti, u64 dtor) { Exc e{obj, ti, dtor, 0, false}; st->excs[obj] = e; st->th[st->cur].inflight = obj; unwind(); }
  void throwStd(const char *name) { u64 o = alloc(*st, 64, 16, OK::Stack, "exception"); throwNew(o, tiAddr(name), 0); }

  Val binop(unsigned op, const Val &a, const Val &b, u32 w);
  Val icmp(CmpInst::Predicate p, const Val &a, const Val &b);
  Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b);
  Val fbin(unsigned op, const Val &a, const Val &b, u32 w);
  Val fneg(const Val &a);
  Val cast1(unsigned op, const Val &a, Type *from, Type *to);
  Val select1(const Val &c, const Val &a, const Val &b, Type *t);
  Val fmath(const std::string &name, std::vector<Val> a, u32 w);
  Val realRound(const std::string &key, const Val &arg, u32 w);
  Val realVar(const std::string &key, const std::string &base, const Val *arg, u32 w, double M);
  Val realDiv(const Val &a, const Val &b, u32 w);
  std::string realKey(const Val &v);
  Val lanes2(Type *t, const Val &a, const Val &b, std::function<Val(const Val &, const Val &, Type *)> f);

  bool atomicOp(const PInst &in);
  bool extCall(const PInst &in, const std::string &name, std::vector<Val> &a, Val &ret);
  bool intrin(const PInst &in, Intrinsic::ID id, std::vector<Val> &a, Val &ret);
  void doCall(const PInst &in);
  void exec(const PInst &in);
  void memcpyOp(u64 d, u64 sc, u64 n) { std::vector<Cell> c; readCells(*st, sc, n, c); writeCells(*st, d, c); }
  bool schedule();
  void runState(State *s);
  void endPath();
  bool alignTrig(std::vector<expr> &ex);
  void pinReals(int t, std::vector<expr> &ex);
  bool guess(std::vector<expr> &ex);
  bool onlyLibm(); bool pinLibm(int t, std::vector<expr> &ex);
  void killViolation(const std::string &kind, const std::string &msg, const std::vector<expr> &extra);
  std::vector<std::string> inputsOf(z3::model *m);
  std::string fmt(const Val &v, char kind, z3::model *m);
  void check(const Val &c, const std::string &msg);
  void loadModule(Module *m);
  void run();
  void report();
  bool readsLatest = false;
};
