#pragma once
#include "solver.hpp"
using namespace llvm;

struct PInst { Instruction *I; unsigned op; int dst = -1; std::vector<int> ops; int b0 = -1, b1 = -1; int kind = 0; void *aux = nullptr; };
struct PPhi { int dst; std::vector<std::pair<int, int>> in; };
struct PBlock { std::vector<PPhi> phis; std::vector<PInst> ins; };
struct PFunc {
  Function *F; std::vector<PBlock> bbs; std::vector<Val> consts; int nregs = 0;
  std::vector<int> args; std::string name, dem; u64 entered = 0;
};

struct Frame {
  PFunc *f; int bb = 0, ip = 0, prev = -1;
  std::vector<Val> r;
  std::vector<u64> allocas;
  std::vector<Val> va;
  const PInst *call = nullptr; // call site in the caller
  bool invoked = false;
};

struct Exc { u64 obj; u64 ti; u64 dtor; int handlers = 0; bool rethrown = false; };

using View = std::map<u64, u32>;
using VC = std::vector<u32>;
inline void joinVC(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
inline void joinView(View &a, const View &b) { for (auto &p : b) { auto &x = a[p.first]; x = std::max(x, p.second); } }
struct Msg { Val v; VC vc; View view; };
struct ALoc { std::vector<Msg> h; u32 w; VC initvc; };

struct OpInfo { int kind = 0; u64 addr = 0; bool write = false; bool sc = false; }; // kind 0 none

struct Thread {
  std::vector<Frame> st;
  std::vector<u64> caught;      // stack of exception ids being handled
  u64 inflight = 0;             // exception being propagated
  bool done = false, started = false;
  VC vc; View view;
  VC acqVC; View acqView; VC relVC; View relView;
  OpInfo next;                  // set when stopped before a visible operation
};

struct Input { std::string name; char kind; Val v; double lo = 0, hi = 0; };
struct ObsV { std::string label; Val v; };

struct State {
  u64 id = 0;
  std::vector<Thread> th;
  int cur = 0;
  bool mt = false;
  std::map<u64, Ref<Obj>> mem;
  u64 bump = 0;
  std::vector<expr> pcs;
  std::unordered_map<unsigned, bool> known;
  std::optional<z3::model> model;
  std::vector<Input> inputs;
  std::vector<ObsV> obs;
  std::map<u64, Exc> excs; u64 nexc = 1;
  std::map<u64, ALoc> aloc;
  VC scVC; View scView;
  std::vector<std::pair<int, OpInfo>> sleep;
  bool go = false, join = false;
  std::string sched;
  u64 steps = 0; u64 liveheap = 0;
  std::map<std::string, std::pair<Val, Val>> real; // derived real vars by key
  struct LibmApp { std::string n; unsigned w; std::vector<z3::expr> args; z3::expr res; };
  std::vector<LibmApp> libm;                       // uninterpreted library functions applied in bit-exact mode
  std::vector<std::string> reached;
  u64 nobj = 0;
  i64 budget = -1;
};

struct Abort { std::string kind, msg; };   // path ends with a violation candidate
struct Unsupported { std::string msg; };
struct Infeasible {};
struct PathKill {};                        // path silently ends (assume false)
