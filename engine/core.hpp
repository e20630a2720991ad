// xsym core: values, cells, objects, states.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <optional>
#include <functional>
#include <cmath>
#include <chrono>
#include <algorithm>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/InlineAsm.h>
#include <z3++.h>

using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
using z3::expr;

struct Node { mutable int rc = 0; virtual ~Node() {} };
template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(const Ref &o) { T *q = o.p; if (q) q->rc++; drop(); p = q; return *this; }
  Ref &operator=(Ref &&o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  ~Ref() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
};

enum class K : u8 { Undef, Int, Sym, Fp, Real, Agg, Mix };

struct Val {
  K k = K::Undef;
  u32 w = 0;          // bit width (Agg: total meaningless)
  u64 c = 0;          // concrete bits
  Ref<Node> p;
  static Val I(u32 w, u64 c) { Val v; v.k = K::Int; v.w = w; v.c = w >= 64 ? c : (c & ((1ull << w) - 1)); return v; }
  static Val U(u32 w) { Val v; v.k = K::Undef; v.w = w; return v; }
  bool isInt() const { return k == K::Int; }
};

struct SymNode : Node { expr e; std::optional<expr> fp; SymNode(const expr &x) : e(x) {} };
struct FpNode : Node { expr e; std::optional<expr> bits; FpNode(const expr &x) : e(x) {} };
// rational function over real variables, with a dyadic exactness estimate
struct RealNode : Node {
  expr num; std::optional<expr> den;
  double M = 0; int g = 0; bool exact = true;
  int prec = 255; // mantissa bits of the narrowest rounding step on the way to this value (255: none)
  RealNode(const expr &n) : num(n) {}
};
struct AggNode : Node { std::vector<Val> v; };
struct BoxNode : Node { Val v; };

struct Cell {
  u8 k = 0;       // 0 uninit, 1 concrete, 2 slice
  u8 b = 0;
  uint16_t idx = 0;
  Ref<BoxNode> v;
  static Cell C(u8 b) { Cell c; c.k = 1; c.b = b; return c; }
};
struct MixNode : Node { std::vector<Cell> c; };

struct Acc { int wt = -1; u32 wc = 0; std::vector<u32> rd; };

enum class OK : u8 { Global, Stack, Heap };
struct Obj : Node {
  u64 base = 0, size = 0; u64 id = 0;
  OK kind = OK::Heap; bool ro = false; bool live = true; // live=false: lifetime.end'ed stack slot
  u64 tag = 0;
  std::vector<Cell> m;
  std::vector<Acc> acc;
  std::string name;
};
