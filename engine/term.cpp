#include "term.h"
#include <algorithm>
#include <numeric>
#include <cstring>
extern bool cellsNonNull;
Terms T; Term TNull, TUndef, T0, T1;
Terms::Terms() {
  nodes.reserve(1 << 20); pool.reserve(1 << 22); table.assign(1 << 16, ~0u); mask = table.size() - 1;
}
static struct Init { Init() { i64 z = 0; T0 = C(0); T1 = C(1); TNull = T.intern(K::Null, &z, 1, 0, 0); TUndef = T.intern(K::Undef, &z, 1, -INF, INF); } } init_;
static u64 hashp(K k, const i64* p, u32 n) { u64 h = 1469598103934665603ull ^ (u64)k; for (u32 i = 0; i < n; i++) { h ^= (u64)p[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }
void Terms::grow() {
  std::vector<u32> nt(table.size() * 2, ~0u); mask = nt.size() - 1;
  for (u32 i = 0; i < nodes.size(); i++) { u64 h = hashp(nodes[i].k, &pool[nodes[i].off], nodes[i].len) & mask; while (nt[h] != ~0u) h = (h + 1) & mask; nt[h] = i; }
  table.swap(nt);
}
static bool childIsTerm(K k, u32 i) {
  switch (k) { case K::Slice: return i == 0; case K::Div: case K::Mod: return i == 0; case K::Ite: return true; case K::BitOr: case K::BitAnd: return true; case K::Ptr: case K::Cell: return i == 1; case K::App: return i == 0; case K::Tuple: return true;
    case K::Lin: return (i & 1) == 1; default: return false; }
}
u64 bloomOf(Term t) { return T.nodes[t].bloom; }
Term Terms::intern(K k, const i64* p, u32 n, i64 lo, i64 hi) {
  u64 h = hashp(k, p, n) & mask;
  while (table[h] != ~0u) { auto& nd = nodes[table[h]]; if (nd.k == k && nd.len == n && !memcmp(&pool[nd.off], p, n * sizeof(i64))) return table[h]; h = (h + 1) & mask; }
  u32 id = nodes.size(); u32 off = pool.size(); pool.insert(pool.end(), p, p + n);
  u64 bl = 0;
  if (k == K::Var) bl = 1ull << (hashp(k, p, n) % 62);
  else if (k == K::Ind) { bl = 1ull << 63; if (p[0] != COPQ) { bl |= nodes[p[1]].bloom; if (p[0] == CPTREQ) bl |= nodes[p[2]].bloom; } }
  else if (k == K::Bits) { for (u32 i = 0; i + 0 < n;) { u32 m = p[i + 1]; for (u32 j = 0; j < m; j++) bl |= nodes[p[i + 2 + j]].bloom; i += 2 + m; } }
  else if (k == K::Opq) { for (u32 i = 2; i < n; i++) if (p[1] & (1ll << (i - 2))) bl |= nodes[p[i]].bloom; }
  else if (k == K::Crc) { bl = p[0] == 0 ? nodes[p[1]].bloom : (nodes[p[3]].bloom); if (p[0] >= 1) bl |= 1ull << 62; }
  else for (u32 i = 0; i < n; i++) if (childIsTerm(k, i)) bl |= nodes[p[i]].bloom;
  nodes.push_back({k, 0, off, n, lo, hi, bl}); table[h] = id;
  if (nodes.size() * 2 > table.size()) grow();
  return id;
}
Term C(i64 v) { return T.intern(K::Const, &v, 1, v, v); }
Term mkVar(int kind, i64 a, i64 b, i64 lo, i64 hi) { i64 p[5] = {kind, a, b, lo, hi}; return T.intern(K::Var, p, 5, lo, hi); }
Term mkSym(const std::string& name, i64 lo, i64 hi) {
  for (size_t i = 0; i < T.symNames.size(); i++) if (T.symNames[i] == name) return mkVar(VSYM, i, 0, lo, hi);
  T.symNames.push_back(name); return mkVar(VSYM, T.symNames.size() - 1, 0, lo, hi);
}
Term mkFresh(i64 lo, i64 hi) { static i64 n = 0; return mkVar(VFRESH, n++, 0, lo, hi); }
Term mkPtr(i64 r, Term o) { i64 p[2] = {r, (i64)o}; return T.intern(K::Ptr, p, 2, 0, 0); }
Term mkCell(i64 r, Term i) { i64 p[2] = {r, (i64)i}; return T.intern(K::Cell, p, 2, 0, 0); }
Term mkApp(Term ptr, int size, int gen) { i64 p[3] = {(i64)ptr, size, gen}; return T.intern(K::App, p, 3, 0, size == 1 ? 1 : size == 2 ? 65535 : INF); }
Term mkFn(i64 f) { return T.intern(K::Fn, &f, 1, 0, 0); }
Term mkDrvFn(i64 s, i64 k) { i64 p[2] = {s, k}; return T.intern(K::DrvFn, p, 2, 0, 0); }
Term mkTuple(const std::vector<Term>& v) { std::vector<i64> p(v.begin(), v.end()); if (p.empty()) p.push_back(TUndef); return T.intern(K::Tuple, p.data(), p.size(), 0, 0); }
Term mkCrc(i64 kind, i64 a, i64 b, i64 c) { i64 p[4] = {kind, a, b, c}; return T.intern(K::Crc, p, 4, 0, kind == 2 ? 255 : 65535); }
Term mkSel(Term tup, Term idx) { if (isC(idx)) { i64 i = cval(idx); if (i >= 0 && i < (i64)T.plen(tup)) return (Term)T.pay(tup)[i]; } return mkCrc(2, tup, 0, idx); }
Term mkOpq(int op, std::initializer_list<i64> q, i64 lo, i64 hi) { std::vector<i64> p{op}; p.insert(p.end(), q.begin(), q.end()); return T.intern(K::Opq, p.data(), p.size(), lo, hi); }

LinV lin(Term t) {
  LinV l; auto& n = T.nodes[t];
  if (n.k == K::Const) { l.c = T.pool[n.off]; return l; }
  if (n.k == K::Lin) { const i64* p = T.pay(t); l.c = p[0]; l.a.reserve(n.len / 2); for (u32 i = 1; i < n.len; i += 2) l.a.push_back({(Term)p[i], p[i + 1]}); return l; }
  l.a.push_back({t, 1}); return l;
}
static inline i64 satmul(i64 a, i64 b) { __int128 r = (__int128)a * b; if (r > INF) return INF; if (r < -INF) return -INF; return (i64)r; }
static inline i64 satadd(i64 a, i64 b) { i64 r = a + b; if (r > INF) return INF; if (r < -INF) return -INF; return r; }
Term mkLin(LinV& l) {
  // merge adjacent slices of one atom
  bool again = l.a.size() > 1;
  while (again) {
    again = false;
    for (size_t i = 0; i < l.a.size() && !again; i++) {
      Term s = l.a[i].first; if (T.kind(s) != K::Slice || l.a[i].second <= 0) continue; const i64* p = T.pay(s); Term x = p[0]; i64 lo = p[1], len = p[2], cf = l.a[i].second;
      for (size_t j = 0; j < l.a.size(); j++) { if (j == i) continue; Term s2 = l.a[j].first; if (T.kind(s2) != K::Slice) continue; const i64* q = T.pay(s2);
        if ((Term)q[0] == x && q[1] == lo + len && len < 40 && l.a[j].second == cf << len) {
          i64 nlen = len + q[2]; LinV r; r.c = l.c; for (size_t k = 0; k < l.a.size(); k++) if (k != i && k != j) r.a.push_back(l.a[k]);
          Term m = mkSlice(x, lo, nlen); LinV ml = lin(m); r.c += ml.c * cf; for (auto& e : ml.a) r.a.push_back({e.first, e.second * cf});
          std::sort(r.a.begin(), r.a.end()); LinV r2; r2.c = r.c; for (auto& e : r.a) { if (!r2.a.empty() && r2.a.back().first == e.first) r2.a.back().second += e.second; else r2.a.push_back(e); }
          r2.a.erase(std::remove_if(r2.a.begin(), r2.a.end(), [](auto& e) { return e.second == 0; }), r2.a.end());
          l = r2; again = l.a.size() > 1; break; } }
    }
  }
  if (l.a.empty()) return C(l.c);
  if (l.a.size() == 1 && l.c == 0 && l.a[0].second == 1) return l.a[0].first;
  std::vector<i64> p; p.reserve(1 + 2 * l.a.size()); p.push_back(l.c); i64 lo = l.c, hi = l.c;
  for (auto& e : l.a) { p.push_back(e.first); p.push_back(e.second); i64 a = tlo(e.first), b = thi(e.first); if (e.second > 0) { lo = satadd(lo, satmul(a, e.second)); hi = satadd(hi, satmul(b, e.second)); } else { lo = satadd(lo, satmul(b, e.second)); hi = satadd(hi, satmul(a, e.second)); } }
  return T.intern(K::Lin, p.data(), p.size(), lo, hi);
}
static Term addScaled(Term a, Term b, i64 s) {
  if (isC(a) && isC(b)) return C(cval(a) + s * cval(b));
  if (isC(b) && cval(b) == 0) return a;
  LinV x = lin(a), y = lin(b), r; r.c = x.c + s * y.c; r.a.reserve(x.a.size() + y.a.size());
  size_t i = 0, j = 0;
  while (i < x.a.size() || j < y.a.size()) {
    if (j == y.a.size() || (i < x.a.size() && x.a[i].first < y.a[j].first)) r.a.push_back(x.a[i++]);
    else if (i == x.a.size() || y.a[j].first < x.a[i].first) { r.a.push_back({y.a[j].first, y.a[j].second * s}); j++; }
    else { i64 c = x.a[i].second + y.a[j].second * s; if (c) r.a.push_back({x.a[i].first, c}); i++; j++; }
  }
  return mkLin(r);
}
Term add(Term a, Term b) { return addScaled(a, b, 1); }
Term sub(Term a, Term b) { return addScaled(a, b, -1); }
Term addc(Term a, i64 c) { if (!c) return a; if (isC(a)) return C(cval(a) + c); LinV l = lin(a); l.c += c; return mkLin(l); }
Term mulc(Term a, i64 c) { if (c == 1) return a; if (c == 0) return T0; if (isC(a)) return C(cval(a) * c); LinV l = lin(a); l.c *= c; for (auto& e : l.a) e.second *= c; return mkLin(l); }
Term mkMul(Term a, Term b) {
  if (isC(a)) return mulc(b, cval(a)); if (isC(b)) return mulc(a, cval(b));
  if (a > b) std::swap(a, b);
  i64 c[4] = {satmul(tlo(a), tlo(b)), satmul(tlo(a), thi(b)), satmul(thi(a), tlo(b)), satmul(thi(a), thi(b))};
  return mkOpq(1, {3, (i64)a, (i64)b}, *std::min_element(c, c + 4), *std::max_element(c, c + 4));
}
static int nbits(i64 hi) { int n = 0; while (n < 62 && (hi >> n)) n++; return n; }
static bool singleBool(Term t, Term& atom, i64& c0, i64& c1) {   // t = c0 if atom==0 else c1
  auto& n = T.nodes[t]; if (n.k == K::Lin) { if (n.len != 3) return false; const i64* p = T.pay(t); if (tlo(p[1]) != 0 || thi(p[1]) != 1) return false; atom = p[1]; c0 = p[0]; c1 = p[0] + p[2]; return true; }
  if (n.k != K::Const && n.lo == 0 && n.hi == 1) { atom = t; c0 = 0; c1 = 1; return true; } return false;
}
static i64 sliceC(i64 v, int lo, int len) { u64 m = (lo + len >= 64) ? ~0ull : ((1ull << (lo + len)) - 1); return (i64)(((u64)v & m) >> lo); }
Term mkSlice(Term t, int lo, int len) {
  if (len <= 0) return T0;
  if (isC(t)) return C(sliceC(cval(t), lo, len));
  if (lo + len > 62) len = 62 - lo;
  auto n = T.nodes[t]; i64 M = (i64)1 << (lo + len), B = (i64)1 << lo;
  if (lo == 0 && n.lo >= 0 && n.hi < M) return t;
  Term at; i64 c0, c1; if (singleBool(t, at, c0, c1)) { i64 s0 = sliceC(c0, lo, len), s1 = sliceC(c1, lo, len); return addc(mulc(at, s1 - s0), s0); }
  if (n.k == K::Slice) { const i64* p = T.pay(t); if (lo >= p[2]) return T0; return mkSlice((Term)p[0], p[1] + lo, (int)std::min<i64>(len, p[2] - lo)); }
  if (n.k == K::Bits) { Word w; if (toBits(t, 62, w)) { Word r; for (int i = lo; i < lo + len; i++) r.push_back(w[i]); return fromBits(r); } }
  if (n.k == K::Ite) { const i64* p = T.pay(t); return mkIte(p[0], mkSlice(p[1], lo, len), mkSlice(p[2], lo, len)); }
  if (n.lo >= 0) { int nb = nbits(n.hi); if (lo >= nb) return T0; if (lo + len > nb) { len = nb - lo; M = (i64)1 << (lo + len); } }
  LinV l = lin(t);
  if (n.k == K::Lin) {
    if (lo == 0) {   // a wrapped sum within a sum that is wrapped again: wrapped once
      bool nest = false; for (auto& e : l.a) if (T.kind(e.first) == K::Slice && T.pay(e.first)[1] == 0 && T.pay(e.first)[2] >= len && T.kind((Term)T.pay(e.first)[0]) == K::Lin) nest = true;
      if (nest) { Term x = C(l.c); for (auto& e : l.a) { Term y = T.kind(e.first) == K::Slice && T.pay(e.first)[1] == 0 && T.pay(e.first)[2] >= len && T.kind((Term)T.pay(e.first)[0]) == K::Lin ? (Term)T.pay(e.first)[0] : e.first; x = add(x, mulc(y, e.second)); } if (tlo(x) < 0 && tlo(x) > -((i64)1 << 50)) x = addc(x, (((-tlo(x)) >> len) + 1) << len); return mkSlice(x, lo, len); } }
    LinV r; r.c = ((l.c % M) + M) % M; bool ch = r.c != l.c;
    for (auto& e : l.a) { i64 c = e.second % M; if (c != e.second) ch = true; if (c) r.a.push_back({e.first, c}); }
    if (ch) { // keep exact value when no reduction is needed for negatives
      Term rt; if (r.a.empty()) return C(sliceC(r.c, lo, len)); LinV rr = r; rt = mkLin(rr); return mkSlice(rt, lo, len); }
    i64 rlo = n.lo, rhi = n.hi;
    if (rlo >= 0 && rhi < M) {
      LinV hi, low; for (auto& e : l.a) if (e.second % B == 0) hi.a.push_back({e.first, e.second / B}); else low.a.push_back(e);
      i64 cq = l.c >= 0 ? l.c / B : -((-l.c + B - 1) / B); hi.c = cq; low.c = l.c - cq * B;
      if (low.a.empty()) return mkLin(hi);
      LinV lw = low; Term lt = mkLin(lw); i64 ll = tlo(lt), lh = thi(lt);
      if (hi.a.empty() && hi.c == 0) { /* nothing to separate */ }
      else if (ll >= 0 && lh < B) return mkLin(hi);
      else if (ll >= 0) return add(mkLin(hi), mkSlice(lt, lo, nbits(lh) - lo));
      if (hi.a.empty() && hi.c == 0 && lo > 0 && l.c > 0 && l.c < B) {   // (x + c) >> lo  ->  (x >> lo) + carry
        LinV xl = l; xl.c = 0; Term x = mkLin(xl); if (tlo(x) >= 0) return add(mkSlice(x, lo, len), mkLe(C(B), addc(mkSlice(x, 0, lo), l.c))); }
    }
    // digit decomposition: sum of disjoint digits
    Word w; if (toBits(t, lo + len, w)) { Word r2; for (int i = lo; i < lo + len; i++) r2.push_back(w[i]); bool ok = true; for (auto& b : r2) if (b.x.size() > 1 || (b.one && !b.x.empty())) ok = false; if (ok) return fromBits(r2); }
  }
  i64 p[3] = {(i64)t, lo, len}; i64 h = ((i64)1 << len) - 1;
  if (n.lo >= 0 && n.hi < M) h = std::min(h, n.hi >> lo);
  return T.intern(K::Slice, p, 3, 0, h);
}
Term mkDiv(Term t, i64 d) {
  if (isC(t)) return C(cval(t) / d); if (d == 1) return t;
  if (thi(t) < d && tlo(t) >= 0) return T0;
  if ((d & (d - 1)) == 0 && tlo(t) >= 0 && thi(t) < INF) return mkSlice(t, __builtin_ctzll(d), 62 - __builtin_ctzll(d));
  LinV l = lin(t), hi, low; for (auto& e : l.a) if (e.second % d == 0) hi.a.push_back({e.first, e.second / d}); else low.a.push_back(e);
  if (!hi.a.empty() && l.c >= 0) { low.c = l.c % d; hi.c = l.c / d; LinV lw = low; Term lt = mkLin(lw); if (tlo(lt) >= 0) return add(mkLin(hi), mkDiv(lt, d)); }
  i64 p[2] = {(i64)t, d}; return T.intern(K::Div, p, 2, tlo(t) >= 0 ? tlo(t) / d : -INF, thi(t) / d);
}
Term mkMod(Term t, i64 d) {
  if (isC(t)) return C(cval(t) % d); if (tlo(t) >= 0 && thi(t) < d) return t; if (d == 1) return T0;
  if ((d & (d - 1)) == 0 && tlo(t) >= 0) return mkSlice(t, 0, __builtin_ctzll(d));
  if (tlo(t) >= 0) return sub(t, mulc(mkDiv(t, d), d));
  i64 p[2] = {(i64)t, d}; return T.intern(K::Mod, p, 2, -d + 1, d - 1);
}
Term mkIte(Term c, Term a, Term b) {
  if (isC(c)) return cval(c) ? a : b; if (a == b) return a;
  if (T.kind(c) == K::Lin) { const i64* p = T.pay(c); if (T.plen(c) == 3 && p[0] == 1 && p[2] == -1) return mkIte((Term)p[1], b, a); }
  auto ptr = [](Term t) { K k = T.kind(t); return k == K::Ptr || k == K::Cell || k == K::Null || k == K::Fn || k == K::DrvFn || k == K::Undef || k == K::Tuple; };
  if (!ptr(a) && !ptr(b)) { Term d = sub(a, b); if (isC(d)) return add(b, mulc(c, cval(d)));
    // word-wise selection against a constant difference (xor form)
    if (T.kind(a) == K::Bits || T.kind(b) == K::Bits) { Word x, y; int w = std::max(nbits(thi(a)), nbits(thi(b))); if (w > 0 && w < 62 && toBits(a, w, x) && toBits(b, w, y)) { bool ok = true; Word r = y; for (int i = 0; i < w && ok; i++) { Bit df = bxor(x[i], y[i]); if (df.x.empty()) { if (df.one) { Bit cb; Word cw; if (!toBits(c, 1, cw)) { ok = false; break; } cb = cw[0]; r[i] = bxor(y[i], cb); } } else ok = false; } if (ok) return fromBits(r); } } }
  i64 p[3] = {(i64)c, (i64)a, (i64)b}; return T.intern(K::Ite, p, 3, std::min(tlo(a), tlo(b)), std::max(thi(a), thi(b)));
}
static Term mkInd(i64 k, i64 a, i64 b) { i64 p[3] = {k, a, b}; return T.intern(K::Ind, p, 3, 0, 1); }
Term mkNullp(Term p) {
  if (cellsNonNull && T.kind(p) == K::Cell) return T0;
  switch (T.kind(p)) { case K::Null: return T1; case K::Ptr: case K::Fn: case K::DrvFn: return T0; case K::Ite: { const i64* q = T.pay(p); return mkIte(q[0], mkNullp(q[1]), mkNullp(q[2])); } default: return mkInd(CNULL, p, 0); }
}
Term mkPtrEq(Term a, Term b) {
  if (a == b) return T1; if (T.kind(a) == K::Null) return mkNullp(b); if (T.kind(b) == K::Null) return mkNullp(a);
  K ka = T.kind(a), kb = T.kind(b);
  if (ka == K::Ptr && kb == K::Ptr) { if (ptrReg(a) != ptrReg(b)) return T0; return mkEq(ptrOff(a), ptrOff(b)); }
  if (ka == K::Fn && kb == K::Fn) return T0; if (ka == K::DrvFn && kb == K::DrvFn) return T0;
  if (ka == K::Ite) { const i64* q = T.pay(a); return mkIte(q[0], mkPtrEq(q[1], b), mkPtrEq(q[2], b)); }
  if (kb == K::Ite) return mkPtrEq(b, a);
  if (a > b) std::swap(a, b); return mkInd(CPTREQ, a, b);
}
static i64 floordiv(i64 a, i64 b) { i64 q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }
Term mkEq(Term a, Term b) {
  Term d = sub(a, b); if (isC(d)) return C(cval(d) == 0); if (tlo(d) > 0 || thi(d) < 0) return T0;
  LinV l = lin(d);
  i64 g = 0; for (auto& e : l.a) g = std::gcd(g, std::abs(e.second)); if (l.c % g) return T0;
  if (l.a[0].second < 0) g = -g; l.c /= g; for (auto& e : l.a) e.second /= g;
  if (l.a.size() == 3 && !l.c) {                                    // the checksum of all but the last two bytes equals these: the checksum of everything is 0
    Term c = 0, lo = 0, hi = 0; i64 sg = 0; for (auto& e : l.a) if (T.kind(e.first) == K::Crc && T.pay(e.first)[0] == 1 && std::abs(e.second) == 1) { c = e.first; sg = e.second; }
    if (c) { for (auto& e : l.a) if (T.kind(e.first) == K::Crc && T.pay(e.first)[0] == 2) { if (e.second == -sg) lo = e.first; else if (e.second == -256 * sg) hi = e.first; }
      if (lo && hi) { i64 tup = T.pay(c)[1]; Term n = (Term)T.pay(c)[3]; if (T.pay(lo)[1] == tup && T.pay(hi)[1] == tup && (Term)T.pay(lo)[3] == n && (Term)T.pay(hi)[3] == addc(n, 1)) return mkEq(mkCrc(1, tup, 0, addc(n, 2)), T0); } } }
  if (l.a.size() == 1) { Term x = l.a[0].first; i64 v = -l.c; if (v < tlo(x) || v > thi(x)) return T0; if (tlo(x) == 0 && thi(x) == 1) return v ? x : sub(T1, x);
    if (T.kind(x) == K::Ite) { const i64* p = T.pay(x); i64 q0 = p[0], q1 = p[1], q2 = p[2]; return mkIte(q0, mkEq(q1, C(v)), mkEq(q2, C(v))); }
    if (T.kind(x) == K::Bits && v == 0) { int w = nbits(thi(x)); Word bw; if (w > 1 && w < 33 && toBits(x, w, bw)) { bool two = true; for (auto& b : bw) if (b.one || b.x.size() != 2) { two = false; break; }   // a ^ b == 0: a == b
        if (two) for (int q = 0; q < 2; q++) { Term a0 = bw[0].x[q]; if (T.kind(a0) != K::Slice || T.pay(a0)[1] != 0) continue; Term y = (Term)T.pay(a0)[0]; if (thi(y) >= ((i64)1 << w) || tlo(y) < 0) continue; Word rest; bool ok = true; for (int i = 0; i < w && ok; i++) { Term bi = bitAtom(y, i); Bit r; if (bw[i].x[0] == bi) r.x.push_back(bw[i].x[1]); else if (bw[i].x[1] == bi) r.x.push_back(bw[i].x[0]); else ok = false; rest.push_back(r); } if (ok) return mkEq(y, fromBits(rest)); } } } }
  return mkInd(CEQ0, mkLin(l), 0);
}
Term mkLe(Term a, Term b) {
  Term d = sub(a, b); if (thi(d) <= 0) return T1; if (tlo(d) > 0) return T0;
  LinV l = lin(d); i64 g = 0; for (auto& e : l.a) g = std::gcd(g, std::abs(e.second));
  l.c = -floordiv(-l.c, g); for (auto& e : l.a) e.second /= g;      // sum <= floor(-c/g)
  if (l.a.size() == 1) { Term x = l.a[0].first; if (tlo(x) == 0 && thi(x) == 1) { i64 v0 = l.c <= 0, v1 = l.c + l.a[0].second <= 0; return addc(mulc(x, v1 - v0), v0); }
    if (T.kind(x) == K::Ite) { const i64* p = T.pay(x); i64 q0 = p[0], q1 = p[1], q2 = p[2]; i64 cf = l.a[0].second, c0 = l.c; return mkIte(q0, mkLe(addc(mulc(q1, cf), c0), T0), mkLe(addc(mulc(q2, cf), c0), T0)); } }
  { LinV l1 = l; Term q = mkLin(l1); if (tlo(q) == 0) return mkEq(q, T0); if (thi(q) == 1) return sub(T1, mkEq(q, T1)); }
  if (l.a[0].second < 0) { l.c = -l.c + 1; for (auto& e : l.a) e.second = -e.second; return sub(T1, mkInd(CLE0, mkLin(l), 0)); }
  return mkInd(CLE0, mkLin(l), 0);
}
// ---- bits
Term bitAtom(Term t, int k) { return mkSlice(t, k, 1); }
Bit bxor(const Bit& a, const Bit& b) { Bit r; r.one = a.one ^ b.one; std::set_symmetric_difference(a.x.begin(), a.x.end(), b.x.begin(), b.x.end(), std::back_inserter(r.x)); return r; }
static Bit bAtom(Term t) { Bit b; if (isC(t)) { b.one = cval(t) & 1; return b; } Term at; i64 c0, c1; if (singleBool(t, at, c0, c1)) { b.one = c0; b.x = {at}; if (c0 == c1) b.x.clear(); return b; } b.x = {t}; return b; }
bool toBits(Term t, int w, Word& out) {
  out.assign(w, Bit());
  if (isC(t)) { for (int i = 0; i < w; i++) out[i].one = ((u64)cval(t) >> std::min(i, 63)) & 1; return true; }
  auto n = T.nodes[t];
  if (n.k == K::Bits) { const i64* p = T.pay(t); int i = 0; for (u32 q = 0; q < n.len && i < w; i++) { out[i].one = p[q]; u32 m = p[q + 1]; for (u32 j = 0; j < m; j++) out[i].x.push_back(p[q + 2 + j]); q += 2 + m; } return true; }
  if (n.k == K::Lin) {
    LinV l = lin(t); Term at; i64 c0, c1;
    if (singleBool(t, at, c0, c1)) { for (int i = 0; i < w; i++) { bool b0 = sliceC(c0, i, 1), b1 = sliceC(c1, i, 1); out[i].one = b0; if (b0 != b1) out[i].x = {at}; } return true; }
    if (l.c < 0) return false; for (auto& e : l.a) if (e.second <= 0 || (e.second & (e.second - 1)) || tlo(e.first) < 0 || thi(e.first) >= ((i64)1 << 40)) return false;
    std::vector<u8> used(64, 0); for (int i = 0; i < 62; i++) if ((l.c >> i) & 1) { used[i] = 1; if (i < w) out[i].one = true; }
    for (auto& e : l.a) { int s = __builtin_ctzll(e.second), nb = nbits(thi(e.first)); Word sw; bool bits = T.kind(e.first) == K::Bits; if (bits) toBits(e.first, nb, sw);
      for (int k = 0; k < nb; k++) { int i = s + k; if (i >= 62) return false; if (used[i]) return false; used[i] = 1; if (i < w) { if (bits) out[i] = sw[k]; else out[i] = bAtom(mkSlice(e.first, k, 1)); } } }
    return true;
  }
  if (n.lo < 0 || n.hi >= ((i64)1 << 62)) return false;
  if (n.k == K::Ptr || n.k == K::Cell || n.k == K::Null || n.k == K::Fn || n.k == K::Undef || n.k == K::Tuple) return false;
  int nb = nbits(n.hi); for (int i = 0; i < w && i < nb; i++) out[i] = bAtom(nb == 1 ? t : mkSlice(t, i, 1));
  return true;
}
Term fromBits(const Word& w0) {
  Word w = w0; while (!w.empty() && w.back().x.empty() && !w.back().one) w.pop_back();
  bool simple = true; for (auto& b : w) if (b.x.size() > 1 || (b.one && !b.x.empty())) { simple = false; break; }
  if (simple) { Term r = T0; i64 c = 0; LinV l;
    for (size_t i = 0; i < w.size(); i++) { if (w[i].x.empty()) { if (w[i].one) c += (i64)1 << i; } else l.a.push_back({w[i].x[0], (i64)1 << i}); }
    l.c = c; std::sort(l.a.begin(), l.a.end()); LinV r2; r2.c = c; for (auto& e : l.a) { if (!r2.a.empty() && r2.a.back().first == e.first) r2.a.back().second += e.second; else r2.a.push_back(e); }
    r = mkLin(r2); return r; }
  if (w.size() == 1 && w[0].one && w[0].x.size() == 1) return sub(T1, w[0].x[0]);
  std::vector<i64> p; for (auto& b : w) { p.push_back(b.one); p.push_back(b.x.size()); for (auto t : b.x) p.push_back(t); }
  return T.intern(K::Bits, p.data(), p.size(), 0, ((i64)1 << w.size()) - 1);
}
static Term maskAnd(Term t, i64 m, int w) {
  u64 mm = (u64)m; if (w < 64) mm &= (1ull << w) - 1; Term r = T0; int i = 0;
  while (i < 62 && (mm >> i)) { if (!((mm >> i) & 1)) { i++; continue; } int j = i; while (j < 62 && ((mm >> j) & 1)) j++; r = add(r, mulc(mkSlice(t, i, j - i), (i64)1 << i)); i = j; }
  return r;
}
Term mkAnd(Term a, Term b, int w) {
  if (isC(a) && isC(b)) return C(cval(a) & cval(b)); if (isC(a)) std::swap(a, b);
  if (isC(b)) { if (cval(b) == -1) return a; if (cval(b) < 0 && tlo(a) < 0) return mkOpq(2, {3, (i64)a, (i64)b}, -((i64)1 << (w - 1)), ((i64)1 << (w - 1)) - 1); return maskAnd(a, cval(b), tlo(a) >= 0 ? 62 : w); }
  if (a == b) return a;
  Word x, y; if (tlo(a) >= 0 && tlo(b) >= 0 && toBits(a, std::min(w, 62), x) && toBits(b, std::min(w, 62), y)) {
    Word r(x.size()); bool ok = true; for (size_t i = 0; i < x.size(); i++) {
      if (x[i].x.empty()) { if (x[i].one) r[i] = y[i]; } else if (y[i].x.empty()) { if (y[i].one) r[i] = x[i]; } else if (x[i] == y[i]) r[i] = x[i];
      else { Word u(1), v(1); u[0] = x[i]; v[0] = y[i]; Term p = fromBits(u), q = fromBits(v); if (p > q) std::swap(p, q); i64 pp[2] = {(i64)p, (i64)q}; r[i].x = {T.intern(K::BitAnd, pp, 2, 0, 1)}; } }
    if (ok) return fromBits(r); }
  if (a > b) std::swap(a, b); return mkOpq(2, {3, (i64)a, (i64)b}, std::min<i64>(0, std::min(tlo(a), tlo(b))), std::max(thi(a), thi(b)));
}
Term mkOr(Term a, Term b, int w) {
  if (isC(a) && isC(b)) return C(cval(a) | cval(b)); if (isC(a)) std::swap(a, b); if (isC(b) && cval(b) == 0) return a; if (a == b) return a;
  if (isC(b) && cval(b) > 0 && tlo(a) >= 0) { Term keep = maskAnd(a, ~cval(b), 62); return addc(keep, cval(b)); }
  Word x, y; if (tlo(a) >= 0 && tlo(b) >= 0 && toBits(a, std::min(w, 62), x) && toBits(b, std::min(w, 62), y)) {
    Word r(x.size()); for (size_t i = 0; i < x.size(); i++) {
      if (x[i].x.empty()) { if (x[i].one) r[i].one = true; else r[i] = y[i]; } else if (y[i].x.empty()) { if (y[i].one) r[i].one = true; else r[i] = x[i]; } else if (x[i] == y[i]) r[i] = x[i];
      else { Word u(1), v(1); u[0] = x[i]; v[0] = y[i]; Term p = fromBits(u), q = fromBits(v); if (p > q) std::swap(p, q); i64 pp[2] = {(i64)p, (i64)q}; r[i].x = {T.intern(K::BitOr, pp, 2, 0, 1)}; } }
    return fromBits(r); }
  if (a > b) std::swap(a, b); i64 h = INF; if (tlo(a) >= 0 && tlo(b) >= 0) h = ((i64)1 << std::max(nbits(thi(a)), nbits(thi(b)))) - 1; return mkOpq(3, {3, (i64)a, (i64)b}, std::min<i64>(0, std::min(tlo(a), tlo(b))), h);
}
Term mkXor(Term a, Term b, int w) {
  if (isC(a) && isC(b)) return C(cval(a) ^ cval(b)); if (isC(a)) std::swap(a, b); if (isC(b) && cval(b) == 0) return a; if (a == b) return T0;
  if (isC(b) && cval(b) == 1 && tlo(a) == 0 && thi(a) == 1) return sub(T1, a);
  if (isC(b) && cval(b) == -1) { return addc(mulc(a, -1), -1); }
  Word x, y; int ww = std::min(w, 62); if (tlo(a) >= 0 && toBits(a, ww, x) && toBits(b, ww, y)) { Word r(ww); for (int i = 0; i < ww; i++) r[i] = bxor(x[i], y[i]); if (w >= 32 && r.size() == 62 && r[61].one) return mkOpq(4, {3, (i64)a, (i64)b}, -INF, INF); return fromBits(r); }
  if (a > b) std::swap(a, b); return mkOpq(4, {3, (i64)a, (i64)b}, -((i64)1 << (w < 63 ? w : 62)), (i64)1 << (w < 63 ? w : 62));
}
Term rebuild(Term t, const std::function<Term(Term)>& f) {
  const Node n = T.nodes[t]; std::vector<i64> p(T.pay(t), T.pay(t) + n.len);
  switch (n.k) {
    case K::Lin: { Term r = C(p[0]); for (u32 i = 1; i < n.len; i += 2) r = add(r, mulc(f((Term)p[i]), p[i + 1])); return r; }
    case K::Slice: { Term x = f((Term)p[0]); return x == (Term)p[0] ? t : mkSlice(x, p[1], p[2]); }
    case K::Div: { Term x = f((Term)p[0]); return x == (Term)p[0] ? t : mkDiv(x, p[1]); }
    case K::Mod: { Term x = f((Term)p[0]); return x == (Term)p[0] ? t : mkMod(x, p[1]); }
    case K::Ite: { Term c = f((Term)p[0]); if (isC(c)) return f((Term)(cval(c) ? p[1] : p[2])); return mkIte(c, f((Term)p[1]), f((Term)p[2])); }
    case K::Ind: switch (p[0]) { case CEQ0: { Term x = f((Term)p[1]); return x == (Term)p[1] ? t : mkEq(x, T0); } case CLE0: { Term x = f((Term)p[1]); return x == (Term)p[1] ? t : mkLe(x, T0); } case CNULL: { Term x = f((Term)p[1]); return x == (Term)p[1] ? t : mkNullp(x); } case CPTREQ: { Term x = f((Term)p[1]), y = f((Term)p[2]); return x == (Term)p[1] && y == (Term)p[2] ? t : mkPtrEq(x, y); } default: return t; }
    case K::Ptr: { Term x = f((Term)p[1]); return x == (Term)p[1] ? t : mkPtr(p[0], x); }
    case K::Cell: { Term x = f((Term)p[1]); return x == (Term)p[1] ? t : mkCell(p[0], x); }
    case K::App: { Term x = f((Term)p[0]); return x == (Term)p[0] ? t : mkApp(x, p[1], p[2]); }
    case K::Tuple: { std::vector<Term> v; for (auto q : p) v.push_back(f((Term)q)); return mkTuple(v); }
    case K::Crc: { if (p[0] == 0) { Term x = f((Term)p[1]); return x == (Term)p[1] ? t : mkCrc(0, x, 0, 0); } Term x = f((Term)p[3]); i64 p0 = p[0], p1 = p[1], p2 = p[2]; return x == (Term)p[3] ? t : p0 == 2 ? mkSel((Term)p1, x) : mkCrc(p0, p1, p2, x); }
    case K::BitOr: { Term x = f((Term)p[0]), y = f((Term)p[1]); return x == (Term)p[0] && y == (Term)p[1] ? t : mkOr(x, y, 1); }
    case K::BitAnd: { Term x = f((Term)p[0]), y = f((Term)p[1]); return x == (Term)p[0] && y == (Term)p[1] ? t : mkAnd(x, y, 1); }
    case K::Bits: { Word w; toBits(t, 62, w); Word r; bool ch = false; for (auto& b : w) { Bit q; q.one = b.one; q.x.reserve(b.x.size()); std::vector<Term> moved; for (auto a : b.x) { Term x = f(a); if (x == a) q.x.push_back(a); else moved.push_back(x); } for (Term x : moved) { ch = true; q = bxor(q, bAtom(x)); } r.push_back(std::move(q)); } return ch ? fromBits(r) : t; }
    case K::Opq: { bool ch = false; std::vector<i64> q = p; for (u32 i = 2; i < n.len; i++) if (p[1] & (1ll << (i - 2))) { Term x = f((Term)p[i]); if (x != (Term)p[i]) { q[i] = x; ch = true; } } if (!ch) return t;
      if (p[0] == 1) return mkMul(q[2], q[3]); if (p[0] == 2) return mkAnd(q[2], q[3], 32); if (p[0] == 3) return mkOr(q[2], q[3], 32); if (p[0] == 4) return mkXor(q[2], q[3], 32);
      return T.intern(K::Opq, q.data(), q.size(), n.lo, n.hi); }
    default: return t;
  }
}
std::string show(Term t, int d) {
  const Node& n = T.nodes[t]; const i64* p = T.pay(t); auto S = [&](Term x) { return d <= 0 ? std::string("..") : show(x, d - 1); };
  auto N = [](i64 v) { return std::to_string(v); };
  switch (n.k) {
    case K::Const: return N(p[0]);
    case K::Lin: { std::string s; for (u32 i = 1; i < n.len; i += 2) { if (i > 1) s += "+"; if (p[i + 1] != 1) s += N(p[i + 1]) + "*"; s += S(p[i]); if (i > 16) { s += "+..."; break; } } if (p[0]) s += (p[0] > 0 ? "+" : "") + N(p[0]); return "(" + s + ")"; }
    case K::Var: { static const char* nm[] = {"?", "", "mem", "top", "arr", "v", "timer"}; if (p[0] == VSYM) return T.symNames[p[1]]; return std::string(nm[p[0]]) + N(p[1]) + "[" + N(p[2]) + "]"; }
    case K::Slice: return S(p[0]) + "{" + N(p[1]) + "+:" + N(p[2]) + "}";
    case K::Div: return S(p[0]) + "/" + N(p[1]); case K::Mod: return S(p[0]) + "%" + N(p[1]);
    case K::Ind: { const char* r[] = {"", "==0", "<=0", " is null", " same ", "?"}; return "[" + (p[0] == COPQ ? "?" : S(p[1])) + r[p[0]] + (p[0] == CPTREQ ? S(p[2]) : "") + "]"; }
    case K::Ite: return "ite(" + S(p[0]) + "," + S(p[1]) + "," + S(p[2]) + ")";
    case K::Bits: { std::string s = "bits{"; int i = 0; for (u32 q = 0; q < n.len && i < 16; i++) { if (i) s += ","; if (p[q]) s += "1^"; u32 m = p[q + 1]; if (m > 3) s += N(m) + " atoms"; else for (u32 j = 0; j < m; j++) s += (j ? "^" : "") + S(p[q + 2 + j]); q += 2 + m; } return s + "}"; }
    case K::BitOr: return "(" + S(p[0]) + "|" + S(p[1]) + ")"; case K::BitAnd: return "(" + S(p[0]) + "&" + S(p[1]) + ")";
    case K::Opq: return "op" + N(p[0]) + "(...)"; case K::Ptr: return "&r" + N(p[0]) + "+" + S(p[1]); case K::Cell: return "tab" + N(p[0]) + "[" + S(p[1]) + "]"; case K::App: return "*" + S(p[0]) + (p[2] ? "'" : "");
    case K::Null: return "NULL"; case K::Fn: return "fn" + N(p[0]); case K::DrvFn: return "drv" + N(p[0]) + "." + N(p[1]); case K::Undef: return "undef"; case K::Tuple: if (n.len <= 3) { std::string s = "<"; for (u32 i = 0; i < n.len; i++) s += S(p[i]) + " "; return s + ">"; } return "<" + N(n.len) + " bytes>";
    case K::Crc: return p[0] == 0 ? "crc(" + S(p[1]) + ")" : p[0] == 2 ? "frame" + N(p[1]) + "[" + S(p[3]) + "]" : "crc(frame" + N(p[1]) + "," + S(p[3]) + ")";
  }
  return "?";
}
