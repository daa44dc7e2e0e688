// Abstract states: chunked copy-on-write memory, interval/equality facts, path literals, event log.
#pragma once
#include "term.h"
#include <array>
#include <cstring>
#include <unordered_map>
#include <unordered_set>

template <class X> struct IP {                                    // intrusive, non-atomic
  X* p = nullptr; IP() {} explicit IP(X* q) : p(q) { if (p) p->rc++; } IP(const IP& o) : p(o.p) { if (p) p->rc++; } IP(IP&& o) noexcept : p(o.p) { o.p = nullptr; }
  ~IP() { if (p && --p->rc == 0) delete p; } IP& operator=(IP o) { std::swap(p, o.p); return *this; }
  X* operator->() const { return p; } X& operator*() const { return *p; } explicit operator bool() const { return p; }
  X& mut() { if (p->rc > 1) { X* q = new X(*p); q->rc = 1; p->rc--; p = q; } return *p; } };

struct CellE { Term t = 0; u8 size = 0, pos = 0; u16 pad = 0; bool operator==(const CellE& o) const { return t == o.t && size == o.size && pos == o.pos; } };  // size 0: uninitialised
const int CH = 32;
struct Chunk { int rc = 0; CellE e[CH]; };
typedef IP<Chunk> CP;

enum class RK : u8 { Glob, Const, Table, Ext, Local, Drv };
struct Region { std::string name; i64 size; RK kind; int glob = -1; int chunk0 = -1; int elem = 1; Term bound = 0; int side = 0; bool dead = false; bool bytes = false; };

struct Fact { i64 lo, hi; u32 ex; };                              // ex: interned set of excluded values
u32 exIntern(const std::vector<i64>& v); const std::vector<i64>& exGet(u32 i);
template <class V> struct FlatMap {                               // Term -> V, open addressing
  struct E { Term k; V v; }; std::vector<E> t; u32 n = 0;
  const V* get(Term k) const { if (t.empty()) return nullptr; u32 m = t.size() - 1, h = (k * 2654435761u >> 7) & m; while (t[h].k != ~0u) { if (t[h].k == k) return &t[h].v; h = (h + 1) & m; } return nullptr; }
  void put(Term k, const V& v) { if (t.empty() || n * 2 >= t.size()) { std::vector<E> o; o.swap(t); t.assign(o.empty() ? 8 : o.size() * 2, E{~0u, V()}); n = 0; for (auto& e : o) if (e.k != ~0u) put(e.k, e.v); }
    u32 m = t.size() - 1, h = (k * 2654435761u >> 7) & m; while (t[h].k != ~0u) { if (t[h].k == k) { t[h].v = v; return; } h = (h + 1) & m; } t[h] = {k, v}; n++; }
  template <class F> void each(F f) const { for (auto& e : t) if (e.k != ~0u) f(e.k, e.v); } };
struct FactTab { int rc = 0; FlatMap<Fact> iv; FlatMap<Term> sub; u64 subBloom = 0; std::vector<Term> multi; };
typedef IP<FactTab> Facts;

struct ChainNode { ChainNode* parent; Term lit; bool val; u64 h; int depth; };
u64 litHash(Term l, bool v);                                     // ChainNode::h is the (commutative) sum over the literals
ChainNode* chainAdd(ChainNode* p, Term lit, bool v);
struct LogNode { LogNode* parent; i64 kind; std::vector<i64> a; u64 h; int n; };
LogNode* logAdd(LogNode* p, i64 kind, const std::vector<i64>& a);

struct LocalReg { int chunk0; i64 size; const std::string* name; };
const int NG = 48;
struct State {
  std::vector<CP> mem; std::vector<LocalReg> locals; Facts f; ChainNode* chain = nullptr; LogNode* log = nullptr; i64 g[NG] = {0};
  State() : f(new FactTab) {}
};
struct Iv { i64 lo, hi; };
Term norm(const State& s, Term t);
Iv ivl(const State& s, Term t);                                   // interval of norm(t)
bool assume(State& s, Term c, bool v, bool record = true);        // false: infeasible
bool assumeRange(State& s, Term x, i64 lo, i64 hi);
bool subst(State& s, Term a, Term v);
Iv ivlSplit(const State& s, Term t, int depth = 3);
inline int decide(const State& s, Term c) { Iv i = ivl(s, c); if (i.lo == i.hi) return (int)i.lo; return -1; }
bool feasible(const State& s, Term c, bool v);                    // copy, assume, enumerate small atoms when needed
inline bool proven(const State& s, Term c) { return !feasible(s, c, false); }
bool provenEq(const State& s, Term a, Term b);
Facts hullFacts(const State& a, const State& b);
void collectAtoms(Term t, std::vector<Term>& out);                // Vars / Crc / App / Cell leaves
