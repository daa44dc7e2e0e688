// Shared environment: violations, driver model, frame checksum summary, boundary canonicalisation.
#pragma once
#include "interp.h"
#include <set>
#include <map>
#include <unordered_map>
#include <sstream>

struct Viol { std::string prop, rule, where, msg, trace, path; };
struct Result {                                                    // what one run of one analysis produced
  std::vector<Viol> viol; std::map<std::string, u64> count; std::vector<std::string> notes; std::set<std::string> functions; std::string undecided;
  static bool stream; void add(Viol v);                               // stream: print each violation as soon as it is found
  void merge(const Result& o);
  std::string json() const; bool parse(const std::string& text);
};
extern bool cellsNonNull;                                          // analysis assumption: every table entry is registered

struct Side { int id; const char* name; const char* iface; };
enum Slot { S_INIT, S_SEND, S_ENABLE, S_DISABLE, S_SUB15, S_SUBTX, S_SUB35, S_SUBFE };

struct LiveSet { std::vector<Term> v; const std::vector<u8>* marks = nullptr; bool count(Term t) const { if (marks && t < marks->size() && (*marks)[t]) return true; for (Term x : v) if (x == t) return true; return false; } void insert(Term t) { v.push_back(t); } };   // symbols that still mean something after the call
struct LiveRange { int r; i64 lo, hi; };                             // bytes of frame buffers whose contents matter
const int GPEV = NG - 1;                                             // last preemption of the current poll: (event + 1) * 1000000 + line
struct BaseEnv : Env {
  Interp& I; Result& R; std::set<std::string> seen; std::string phaseName; std::vector<std::string> path;  // event path for messages
  int drvRegion[2] = {-1, -1}; int crcFn = -1; std::string memProp = "C01"; Term frameT = 0, frameLen = 0; bool frameAt(State& s, i64 r, i64 base); bool symLoad(State& s, i64 r, Term off, Term& out) override; std::vector<u8> crcMemo; bool hasCrc(Term t); bool learned(State& s, Term c) override; virtual bool crcPairIs(State&, bool, i64) { return false; } std::string frameRule; std::set<std::string> restrict_;
  BaseEnv(Interp& i, Result& r);
  void viol(const State& s, const std::string& prop, const std::string& rule, const std::string& msg);
  // what notifications record: cell -> (notifications that change it in the idle state, idle value)
  std::map<std::pair<int, i64>, std::pair<std::set<int>, Term>> recorded;
  template <class I, class C> void learnRecord(I& in, const State& s, const C& cells, int ev, const std::vector<Out>& o) { for (auto& c : cells) { const CellE* b = in.cellR(s, c.first, c.second); if (!b->size || b->pos || !isC(b->t)) continue; for (auto& x : o) { const CellE* a = in.cellR(x.s, c.first, c.second); if (a->t != b->t) { auto& r = recorded[c]; r.first.insert(ev); r.second = b->t; } } } }
  template <class I> bool takesBack(I& in, const State& before, const State& after, int ev, int t15, int t35, std::string& what) { for (auto& r : recorded) { if (ev == t15 && r.second.first.size() == 1 && r.second.first.count(t35)) continue;   // a new gap: the silence recorded before belongs to an earlier frame
    if (r.second.first.count(ev) && r.second.first.size() == 1) continue; const CellE *b = in.cellR(before, r.first.first, r.first.second), *a = in.cellR(after, r.first.first, r.first.second); State u = after; if (isC(b->t) && b->t != r.second.second && a->t != b->t && (isC(a->t) ? a->t == r.second.second : a->size == b->size && !a->pos && assume(u, mkEq(a->t, r.second.second), true))) { what = in.regions[r.first.first].name; return true; } } return false; }
  virtual bool afterReinit(const State&) { return false; } struct ReV { bool fresh = false, re = false; Viol v; }; std::map<std::string, ReV> reV; void reportReinit();   // findings that occur only after a repeated initialisation
  void violation(Interp&, const State& s, VK k, const std::string& msg) override;
  void ext(Interp&, State& s, int fid, const std::vector<Term>& args, std::vector<Out>& outs) override;
  bool summarise(Interp&, State& s, int fid, const std::vector<Term>& args, std::vector<Out>& outs) override;
  virtual bool appCall(State& s, const std::string& name, const std::vector<Term>& args, std::vector<Out>& outs) { return false; }
  void count(const std::string& k, u64 n = 1) { R.count[k] += n; }
  virtual std::string preName(int e) { return "notification " + std::to_string(e); }
  // helpers
  std::vector<Out> callFn(const std::string& name, const std::vector<Term>& args, const State& s);
  std::vector<Out> callTerm(Term fn, const std::vector<Term>& args, const State& s);
  Term load(State& s, Term ptr, i64 off, int size, bool isPtr = false);       // TUndef when unreadable
  bool store(State& s, Term ptr, i64 off, int size, Term v);
  bool cellKnown(State& s, Term ptr, i64 off, int size);
  // canonical state at an API boundary
  std::map<std::pair<int, int>, CP> topChunk; struct ChunkMemo { CP in, out; u64 key; }; std::unordered_map<u64, std::vector<ChunkMemo>> chunkMemo; std::unordered_map<u64, std::vector<CP>> chunkPool;
  bool canonBlock(CP& cp, int r, i64 o, u32 mask, const LiveSet& live, u64 sig, u64& key);
  std::map<std::pair<int, int>, std::set<i64>> constSeen; std::map<std::pair<int,int>, std::pair<i64,i64>> symHull;
  void canonical(State& s, const LiveSet& live, const std::vector<LiveRange>& ranges, std::vector<u64>& key, const char* sideProp);
  struct PlainMemo { CP c; bool plain; u64 key; std::vector<Term> tops; bool ok(const State& s) const { if (!plain) return false; for (Term t : tops) if (s.f->sub.get(t) || s.f->iv.get(t)) return false; return true; } }; std::unordered_map<u64, PlainMemo> plainMemo; const PlainMemo& plainBlock(const CP& c, int r, i64 o); virtual bool canonSpecial(int region, i64 lo, i64 hi) { return false; }
  virtual Term canonCell(State& s, int region, i64 off, int size, Term t) { return t; }
};
struct Roles { int reqOff = 0, lenOff = 8; };
bool onlyLive(Term t, const LiveSet& live);
