// Abstract interpreter: executes a function over abstract states, partitioned by branch decisions, joining at merge points.
#pragma once
#include "state.h"
#include <functional>
#include <deque>

struct Site { int fid = -1, file = -1, line = 0; };
struct Out { State s; Term ret = 0; };
enum class VK { OOB, Null, Uninit, Dangling, Diverge, Recursion, Call, WriteConst, Arith, Other };
struct Undecided { std::string why; };

struct Interp;
struct Env {
  virtual ~Env() {}
  virtual void ext(Interp&, State&, int fid, const std::vector<Term>& args, std::vector<Out>& outs) = 0;      // declared-only function
  virtual void drv(Interp&, State&, int side, int slot, const std::vector<Term>& args, std::vector<Out>& outs) = 0;
  virtual bool learned(State&, Term cond) { return true; }             // a branch condition was decided: false when the state cannot occur
  virtual bool symLoad(State&, i64 region, Term off, Term& out) { return false; }
  virtual bool summarise(Interp&, State&, int fid, const std::vector<Term>& args, std::vector<Out>& outs) { return false; }
  virtual void access(Interp&, State&, i64 region, Term off, i64 size, bool write) {}
  virtual bool preempt(Interp&, State&, i64 region, i64 off, i64 size, bool write, std::vector<State>& alts) { return false; }
  virtual Term appLoad(Interp&, State&, Term ptr, int size) { return mkApp(ptr, size, 0); }
  virtual void appStore(Interp&, State&, Term ptr, int size, Term val) {}
  virtual Term tableLoad(Interp&, State&, i64 region, Term idx) { return mkCell(region, idx); }
  virtual void tableStore(Interp&, State&, i64 region, Term idx, Term val) {}
  virtual void violation(Interp&, const State&, VK k, const std::string& msg) = 0;
};

struct Interp {
  Module& m; std::vector<Region> regions; std::vector<int> globRegion; State init; Env* env = nullptr;
  std::vector<Site> stack; u64 steps = 0, budget = 400000000, stateCount = 0, mergeCount = 0, blocks = 0; std::vector<u8> fnSeen; std::vector<std::vector<u8>> blkSeen; int loopCap = 9000; int depthCap = 40;
  std::vector<std::vector<std::vector<u8>>> liveIn;               // per function, per block: register liveness
  int nstatic = 0; std::vector<std::map<int, u64>> forks; std::vector<u64> runs; bool prof = false;
  Interp(Module& m_);
  int addRegion(State& s, const std::string& name, i64 size, RK k);  // static region with storage (uninitialised)
  int addExtRegion(const std::string& name, Term bound, int elem, RK k = RK::Ext);
  void makeTable(int glob);                                       // registration table: cells become symbolic application pointers
  void seal() { nstatic = regions.size(); }
  void run(int fid, const std::vector<Term>& args, const State& s, std::vector<Out>& outs);
  // memory
  const std::string regName(const State& s, i64 r) const;
  i64 regSize(const State& s, i64 r) const;
  Term loadC(State& s, i64 region, i64 off, int size, bool ptr = false);    // no checks; TUndef when uninitialised
  void storeC(State& s, i64 region, i64 off, int size, Term v);
  bool affineLoad(State& s, i64 r, Term off, int size, Term& out); std::map<std::tuple<i64, i64, i64, int>, std::vector<i64>> affineMemo;
  CellE* cell(State& s, i64 region, i64 off);
  const CellE* cellR(const State& s, i64 region, i64 off) const;
  std::string where() const; std::string trace() const; std::string cond(const State& s, int n = 10) const;
  Site here() const { return stack.empty() ? Site() : stack.back(); }
  void report(const State& s, VK k, const std::string& msg) { env->violation(*this, s, k, msg); }
public:
  struct Item { State s; std::vector<Term> r; int blk = 0, idx = 0, prev = -1; int loops = 0; bool noPre = false; };
  struct Act;                                                      // activation
  void liveness(const Func& f);
  bool tryMerge(State& a, Term ra, const State& b, Term rb, Term lit, bool litInA, std::vector<Term>* va, const std::vector<Term>* vb, const std::vector<u8>* live, Term* rout);
  friend struct Act;
};
Term canonW(const State& s, Term t, int w);
std::string siteStr(const Module& m, const Site& s);
void mergeOuts(Interp& I, std::vector<Out>& outs);
