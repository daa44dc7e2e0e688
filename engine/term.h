// Hash-consed abstract values: linear forms over bounded atoms, bit slices, bit-affine words, pointers.
#pragma once
#include "ir.h"
#include <functional>
typedef u32 Term;
enum class K : u8 { Const, Lin, Var, Slice, Div, Mod, Ind, Ite, Bits, BitOr, BitAnd, Opq, Ptr, Cell, App, Null, Fn, DrvFn, Undef, Tuple, Crc };
// Var kinds (payload[0])
enum VarKind { VSYM = 1, VMEM = 2, VTOP = 3, VEXT = 4, VFRESH = 5 };
enum CondKind { CEQ0 = 1, CLE0 = 2, CNULL = 3, CPTREQ = 4, COPQ = 5 };
struct Node { K k; u8 len0; u32 off, len; i64 lo, hi; u64 bloom; };
const i64 INF = (i64)1 << 60;

struct Terms {
  std::vector<Node> nodes; std::vector<i64> pool; std::vector<u32> table; std::vector<std::string> symNames; u64 mask = 0;
  Terms();
  const i64* pay(Term t) const { return &pool[nodes[t].off]; }
  u32 plen(Term t) const { return nodes[t].len; }
  K kind(Term t) const { return nodes[t].k; }
  Term intern(K k, const i64* p, u32 n, i64 lo, i64 hi);
  void grow();
};
extern Terms T;

inline bool isC(Term t) { return T.nodes[t].k == K::Const; }
inline i64 cval(Term t) { return T.pool[T.nodes[t].off]; }
Term C(i64 v);
Term mkVar(int kind, i64 a, i64 b, i64 lo, i64 hi);
Term mkSym(const std::string& name, i64 lo, i64 hi);
Term mkFresh(i64 lo, i64 hi);
extern Term TNull, TUndef, T0, T1;

struct LinV { i64 c = 0; std::vector<std::pair<Term,i64>> a; };    // c + sum coef*atom, sorted by atom
LinV lin(Term t);
Term mkLin(LinV& l);
Term add(Term a, Term b); Term sub(Term a, Term b); Term mulc(Term a, i64 c); Term addc(Term a, i64 c);
Term mkSlice(Term t, int lo, int len);                           // (t mod 2^(lo+len)) >> lo
Term mkDiv(Term t, i64 d); Term mkMod(Term t, i64 d);            // t >= 0
Term mkMul(Term a, Term b);
Term mkOpq(int op, std::initializer_list<i64> p, i64 lo, i64 hi);
Term mkEq(Term a, Term b); Term mkLe(Term a, Term b); inline Term mkNot(Term t) { return sub(T1, t); }
Term mkIte(Term c, Term a, Term b);                              // c in [0,1]
Term mkNullp(Term p); Term mkPtrEq(Term a, Term b);
Term mkPtr(i64 region, Term off); Term mkCell(i64 region, Term idx); Term mkApp(Term ptr, int size, int gen);
Term mkFn(i64 f); Term mkDrvFn(i64 side, i64 slot); Term mkTuple(const std::vector<Term>& v); Term mkCrc(i64 kind, i64 a, i64 b, i64 c); Term mkSel(Term tup, Term idx);   // byte idx of a received frame
inline Term ptrOff(Term p) { return (Term)T.pay(p)[1]; } inline i64 ptrReg(Term p) { return T.pay(p)[0]; }
// bit-affine words
struct Bit { bool one = false; std::vector<Term> x; bool operator==(const Bit& o) const { return one == o.one && x == o.x; } };   // xor of 1-bit atoms
typedef std::vector<Bit> Word;
bool toBits(Term t, int w, Word& out);
Term fromBits(const Word& w);
Term bitAtom(Term t, int k);
Bit bxor(const Bit& a, const Bit& b);
Term mkAnd(Term a, Term b, int w); Term mkOr(Term a, Term b, int w); Term mkXor(Term a, Term b, int w);
Term rebuild(Term t, const std::function<Term(Term)>& f);         // re-make t with children mapped by f
std::string show(Term t, int depth = 6);
inline i64 tlo(Term t) { return T.nodes[t].lo; } inline i64 thi(Term t) { return T.nodes[t].hi; }
u64 bloomOf(Term t);
