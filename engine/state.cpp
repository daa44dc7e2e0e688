#include "state.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>
static std::vector<std::vector<i64>> exPool{{}}; static std::map<std::vector<i64>, u32> exMap{{{}, 0}};
u32 exIntern(const std::vector<i64>& v) { auto i = exMap.find(v); if (i != exMap.end()) return i->second; exPool.push_back(v); return exMap[v] = exPool.size() - 1; }
const std::vector<i64>& exGet(u32 i) { return exPool[i]; }
static u64 mix(u64 h) { h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h; }
u64 litHash(Term l, bool v) { return mix((u64)l * 2 + v + 0x51ed27); }
struct CK { ChainNode* p; Term l; bool v; bool operator==(const CK& o) const { return p == o.p && l == o.l && v == o.v; } };
struct CKH { size_t operator()(const CK& k) const { return mix((u64)k.p * 31 + k.l * 2 + k.v); } };
static std::unordered_map<CK, ChainNode*, CKH> chainMap;
ChainNode* chainAdd(ChainNode* p, Term lit, bool v) {
  CK k{p, lit, v}; auto i = chainMap.find(k); if (i != chainMap.end()) return i->second;
  auto* n = new ChainNode{p, lit, v, (p ? p->h : 77) + litHash(lit, v), p ? p->depth + 1 : 1}; return chainMap[k] = n; }
static std::unordered_map<u64, std::vector<LogNode*>> logMap;
LogNode* logAdd(LogNode* p, i64 kind, const std::vector<i64>& a) {
  u64 h = mix((p ? p->h : 5) * 7 + kind); for (auto x : a) h = mix(h * 13 + x);
  auto& v = logMap[h]; for (auto* n : v) if (n->parent == p && n->kind == kind && n->a == a) return n;
  auto* n = new LogNode{p, kind, a, h, p ? p->n + 1 : 1}; v.push_back(n); return n; }

// ---- normalisation
static Term normR(const FactTab& f, Term t, int depth) {
  const Node& n = T.nodes[t]; if (n.k == K::Const || !(n.bloom & f.subBloom)) return t;
  if (depth > 40) return t;
  if (const Term* s = f.sub.get(t)) return *s == t ? t : normR(f, *s, depth + 1);
  if (n.k == K::Var) return t;
  Term r = rebuild(t, [&](Term x) { return normR(f, x, depth + 1); });
  if (r != t) { if (const Term* s = f.sub.get(r)) return normR(f, *s, depth + 1); }
  if (T.kind(r) == K::Ind && r == t) { // decide a pending comparison by nothing more here
  }
  return r;
}
Term norm(const State& s, Term t) { const FactTab& f = *s.f; if (T.kind(t) == K::Const || !f.sub.n || !(T.nodes[t].bloom & f.subBloom)) return t; Term r = normR(f, t, 0); if (r != t && (T.nodes[r].bloom & f.subBloom)) { Term r2 = normR(f, r, 0); if (r2 != r) return r2; } return r; }
static i64 satadd(i64 a, i64 b) { i64 r = a + b; return r > INF ? INF : r < -INF ? -INF : r; }
static i64 satmul(i64 a, i64 b) { __int128 r = (__int128)a * b; return r > INF ? INF : r < -INF ? -INF : (i64)r; }
static i64 fdiv(i64 a, i64 b) { if (a <= -INF || a >= INF) return b > 0 ? a : -a; i64 q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }
static i64 cdiv(i64 a, i64 b) { if (a <= -INF || a >= INF) return b > 0 ? a : -a; return -fdiv(-a, b); }
struct Shape { Term s; i64 g, c; };                                // t = g*s + c
static i64 igcd(i64 a, i64 b) { while (b) { i64 t = a % b; a = b; b = t; } return a; }
static Shape shapeOf(Term t) {
  if (T.kind(t) != K::Lin) return {t, 1, 0};
  LinV l = lin(t); i64 g = 0; for (auto& e : l.a) g = igcd(g, e.second < 0 ? -e.second : e.second); if (l.a[0].second < 0) g = -g;
  Shape sh; sh.c = l.c; sh.g = g; l.c = 0; if (g != 1) for (auto& e : l.a) e.second /= g; sh.s = (sh.c == 0 && g == 1) ? t : mkLin(l); return sh; }
static Iv isect(Iv a, Iv b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
static Iv atomIv(const FactTab& f, Term a, int d);
// sum(c_i a_i) + (x >> k)  =  (sum(c_i 2^k a_i) + x) >> k : the unshifted sum, when there is one
static Term unshift(Term s, int& k) {
  u32 n = T.plen(s); int pos = -1; for (u32 i = 1; i < n; i += 2) { const i64* p = T.pay(s); Term a = (Term)p[i]; if (p[i + 1] == 1 && T.kind(a) == K::Slice) { const i64* q = T.pay(a); Term x = (Term)q[0]; if (q[1] > 0 && q[1] < 16 && tlo(x) >= 0 && thi(x) < ((i64)1 << std::min<i64>(60, q[1] + q[2]))) { pos = i; k = q[1]; break; } } }
  if (pos < 0 || n > 9) return 0; LinV l; for (u32 i = 1; i < n; i += 2) { const i64* p = T.pay(s); if ((int)i == pos) continue; l.a.push_back({(Term)p[i], p[i + 1] << k}); }
  Term r = mkLin(l); return add(r, (Term)T.pay((Term)T.pay(s)[pos])[0]); }
static Iv anyIv(const FactTab& f, Term t, int d);
static Iv shapeIv(const FactTab& f, Term s, int d) {
  if (T.kind(s) != K::Lin) return atomIv(f, s, d);
  const Node& n = T.nodes[s]; Iv r{n.lo, n.hi}; if (const Fact* x = f.iv.get(s)) r = isect(r, {x->lo, x->hi});
  if (r.lo >= r.hi) return r;
  if (n.k == K::Lin) { i64 lo = T.pay(s)[0], hi = lo; for (u32 i = 1; i < T.plen(s); i += 2) { const i64* p = T.pay(s); i64 cf = p[i + 1]; Iv v = atomIv(f, (Term)p[i], d + 1); p = T.pay(s); if (cf > 0) { lo = satadd(lo, satmul(v.lo, cf)); hi = satadd(hi, satmul(v.hi, cf)); } else { lo = satadd(lo, satmul(v.hi, cf)); hi = satadd(hi, satmul(v.lo, cf)); } } r = isect(r, {lo, hi});
    if (r.lo < r.hi && d < 6) { LinV l = lin(s), o; i64 lo2 = 0, hi2 = 0; bool any = false; o.c = l.c; for (auto& e : l.a) { if (T.kind(e.first) != K::Ind) { o.a.push_back(e); continue; } any = true; Iv v = atomIv(f, e.first, d + 2); if (e.second > 0) { lo2 += v.lo * e.second; hi2 += v.hi * e.second; } else { lo2 += v.hi * e.second; hi2 += v.lo * e.second; } }   // comparisons apart from the rest
      if (any && o.a.size() > 1) { Iv v = anyIv(f, mkLin(o), d + 3); r = isect(r, {satadd(v.lo, lo2), satadd(v.hi, hi2)}); } }
    int k; if (r.lo < r.hi && d < 6) if (Term u = unshift(s, k)) { Iv v = anyIv(f, u, d + 3); i64 c0 = T.pay(s)[0]; if (v.lo > -INF && v.hi < INF && v.lo <= v.hi) r = isect(r, {c0 + (v.lo >> k), c0 + (v.hi >> k)}); } }
  return r; }
static Iv anyIv(const FactTab& f, Term t, int d) {
  if (T.kind(t) == K::Const) return {cval(t), cval(t)};
  if (T.kind(t) == K::Lin) { Shape sh = shapeOf(t); Iv v = shapeIv(f, sh.s, d); i64 a = satadd(satmul(v.lo, sh.g), sh.c), b = satadd(satmul(v.hi, sh.g), sh.c); return sh.g > 0 ? Iv{a, b} : Iv{b, a}; }
  return atomIv(f, t, d); }
static Iv atomIv(const FactTab& f, Term a, int d) {
  const Node n = T.nodes[a]; Iv r{n.lo, n.hi}; const Fact* x = f.iv.get(a); if (x) r = isect(r, {x->lo, x->hi});
  if (d > 8 || r.lo >= r.hi) return r;
  switch (n.k) {
    case K::Slice: { i64 lo = T.pay(a)[1], len = T.pay(a)[2]; Iv v = anyIv(f, (Term)T.pay(a)[0], d + 1); if (v.lo >= 0 && v.hi < INF && (v.lo >> (lo + len)) == (v.hi >> (lo + len))) { i64 m = ((i64)1 << len) - 1; r = isect(r, {(v.lo >> lo) & m, (v.hi >> lo) & m}); } break; }
    case K::Div: { Iv v = anyIv(f, (Term)T.pay(a)[0], d + 1); if (v.lo >= 0) r = isect(r, {v.lo / T.pay(a)[1], v.hi / T.pay(a)[1]}); break; }
    case K::Ite: { Term c = T.pay(a)[0], p = T.pay(a)[1], q = T.pay(a)[2]; Iv ci = anyIv(f, c, d + 1); Iv u = anyIv(f, p, d + 1), v = anyIv(f, q, d + 1); if (ci.lo >= 1) r = isect(r, u); else if (ci.hi <= 0) r = isect(r, v); else r = isect(r, {std::min(u.lo, v.lo), std::max(u.hi, v.hi)}); break; }
    case K::Ind: { i64 k = T.pay(a)[0]; if (k == CEQ0 || k == CLE0) { Iv v = anyIv(f, (Term)T.pay(a)[1], d + 1); if (k == CEQ0) { if (v.lo > 0 || v.hi < 0) return {0, 0}; if (v.lo == 0 && v.hi == 0) return {1, 1};
          Shape sh = shapeOf((Term)T.pay(a)[1]); if (const Fact* y = f.iv.get(sh.s)) if (y->ex && (-sh.c) % sh.g == 0) { auto& e = exGet(y->ex); if (std::binary_search(e.begin(), e.end(), -sh.c / sh.g)) return {0, 0}; } }
        else { if (v.hi <= 0) return {1, 1}; if (v.lo > 0) return {0, 0}; } } break; }
    case K::BitOr: { Iv u = anyIv(f, (Term)T.pay(a)[0], d + 1), v = anyIv(f, (Term)T.pay(a)[1], d + 1); r = isect(r, {std::max(u.lo, v.lo), std::max(u.hi, v.hi)}); break; }
    case K::BitAnd: { Iv u = anyIv(f, (Term)T.pay(a)[0], d + 1), v = anyIv(f, (Term)T.pay(a)[1], d + 1); r = isect(r, {std::min(u.lo, v.lo), std::min(u.hi, v.hi)}); break; }
    default: break;
  }
  return r; }
Iv ivl(const State& s, Term t) { return anyIv(*s.f, norm(s, t), 0); }

// ---- assumptions
bool subst(State& s, Term a, Term v);
static bool setIv(State& s, Term sh, i64 lo, i64 hi, int depth);
static bool excl(State& s, Term sh, i64 v, int depth);
static bool propagate(State& s, Term sh, int depth) {               // shape facts -> atoms
  if (T.kind(sh) != K::Lin || depth > 12) return true;
  Iv r = shapeIv(*s.f, sh, 0); LinV l = lin(sh);
  for (auto& e : l.a) {
    i64 lo = r.lo - 0, hi = r.hi; i64 rlo = 0, rhi = 0; for (auto& o : l.a) if (&o != &e) { Iv v = atomIv(*s.f, o.first, 0); if (o.second > 0) { rlo = satadd(rlo, satmul(v.lo, o.second)); rhi = satadd(rhi, satmul(v.hi, o.second)); } else { rlo = satadd(rlo, satmul(v.hi, o.second)); rhi = satadd(rhi, satmul(v.lo, o.second)); } }
    i64 a = satadd(lo, -rhi), b = satadd(hi, -rlo); i64 nl, nh; if (e.second > 0) { nl = a <= -INF ? -INF : cdiv(a, e.second); nh = b >= INF ? INF : fdiv(b, e.second); } else { nl = b >= INF ? -INF : cdiv(b, e.second); nh = a <= -INF ? INF : fdiv(a, e.second); }
    Iv cur = atomIv(*s.f, e.first, 0); if (nl > cur.lo || nh < cur.hi) { Term at = e.first; if (norm(s, at) != at) { if (!assumeRange(s, at, nl, nh)) return false; return true; } if (!setIv(s, at, nl, nh, depth + 1)) return false; if (norm(s, at) != at) return true; }
  }
  return true; }
static bool touch(State& s, Term atom, int depth) {                 // atom narrowed -> re-propagate shapes that use it
  auto ms = s.f->multi; for (Term m : ms) { bool has = false; const i64* p = T.pay(m); u32 n = T.plen(m); for (u32 i = 1; i < n; i += 2) if ((Term)p[i] == atom) has = true; if (has && norm(s, m) == m) { const Fact* x = s.f->iv.get(m); if (x) { Iv v = shapeIv(*s.f, m, 0); if (v.lo > v.hi) return false; } if (!propagate(s, m, depth + 1)) return false; } }
  return true; }
static bool setIv(State& s, Term sh, i64 lo, i64 hi, int depth) {
  Iv cur = anyIv(*s.f, sh, 0); const Fact* x = s.f->iv.get(sh); u32 ex = x ? x->ex : 0; i64 nl = std::max(lo, cur.lo), nh = std::min(hi, cur.hi);
  if (ex) { auto& e = exGet(ex); while (nl <= nh && std::binary_search(e.begin(), e.end(), nl)) nl++; while (nl <= nh && std::binary_search(e.begin(), e.end(), nh)) nh--; }
  if (nl > nh) return false;
  if (nl == cur.lo && nh == cur.hi && nl != nh && (x || T.kind(sh) != K::Lin)) return true;
  if (T.kind(sh) == K::Ind && nl == nh) { i64 k = T.pay(sh)[0]; Term q = (Term)T.pay(sh)[1]; bool ok = true;   // keep the comparison itself only when the ranges do not imply it
    if (k == CEQ0) { if (nl) ok = assumeRange(s, q, 0, 0); else { Term qn = norm(s, q); if (isC(qn)) return cval(qn) != 0; Shape h = shapeOf(qn); if (!((-h.c) % h.g)) ok = excl(s, h.s, -h.c / h.g, depth + 1); } }
    else if (k == CLE0) ok = nl ? assumeRange(s, q, -INF, 0) : assumeRange(s, q, 1, INF);
    if (!ok) return false; Term me = norm(s, sh); Iv j = ivl(s, me); if (j.lo == j.hi) return j.lo == nl; return T.kind(me) == K::Ind ? subst(s, me, C(nl)) : assumeRange(s, me, nl, nl); }
  bool isnew = !x; { FactTab& f = s.f.mut(); f.iv.put(sh, {nl, nh, ex}); if (isnew && T.kind(sh) == K::Lin) f.multi.push_back(sh); }
  const Node n = T.nodes[sh];
  if (n.k == K::Lin) { if (!propagate(s, sh, depth)) return false; { int k; if (depth < 6 && norm(s, sh) == sh) if (Term u = unshift(sh, k)) { i64 c0 = T.pay(sh)[0]; if (!assumeRange(s, u, nl <= -INF ? -INF : (nl - c0) << k, nh >= INF ? INF : ((nh - c0) << k) + ((i64)1 << k) - 1)) return false; } } if (nl == nh && norm(s, sh) == sh) { // solve for one variable
      LinV l = lin(sh); int best = -1; for (size_t i = 0; i < l.a.size(); i++) if (l.a[i].second == 1 || l.a[i].second == -1) { if (T.kind(l.a[i].first) == K::Var || T.kind(l.a[i].first) == K::App || T.kind(l.a[i].first) == K::Crc) best = i; }
      if (best >= 0) { LinV r; r.c = nl * l.a[best].second; for (size_t i = 0; i < l.a.size(); i++) if ((int)i != best) r.a.push_back({l.a[i].first, -l.a[i].second * l.a[best].second}); Term at = l.a[best].first; Term v = mkLin(r); return subst(s, at, v); } }
    return true; }
  if (n.k == K::Slice) { Term par = (Term)T.pay(sh)[0]; i64 slo = T.pay(sh)[1], slen = T.pay(sh)[2]; Iv pv = ivl(s, par); if (pv.lo >= 0 && pv.hi < ((i64)1 << std::min<i64>(60, slo + slen))) { if (!assumeRange(s, par, nl << slo, ((nh + 1) << slo) - 1)) return false; }
    else if (slo == 0 && nl == nh && false) {} }
  if (n.k == K::BitOr && nl == nh && nl == 0) { Term a = (Term)T.pay(sh)[0], b = (Term)T.pay(sh)[1]; if (!subst(s, sh, T0)) return false; return assumeRange(s, a, 0, 0) && assumeRange(s, b, 0, 0); }
  if (n.k == K::BitAnd && nl == nh && nl == 1) { Term a = (Term)T.pay(sh)[0], b = (Term)T.pay(sh)[1]; if (!subst(s, sh, T1)) return false; return assumeRange(s, a, 1, 1) && assumeRange(s, b, 1, 1); }
  if (n.k == K::Ite) { Term c = (Term)T.pay(sh)[0], p = (Term)T.pay(sh)[1], q = (Term)T.pay(sh)[2]; Iv u = ivl(s, p), v = ivl(s, q); bool pu = u.hi < nl || u.lo > nh, qv = v.hi < nl || v.lo > nh; if (pu && qv) return false; if (pu) return assumeRange(s, c, 0, 0) && assumeRange(s, q, nl, nh); if (qv) return assumeRange(s, c, 1, 1) && assumeRange(s, p, nl, nh); }
  if (n.k == K::Bits && nl == nh) { Word w; if (toBits(sh, 62, w)) { // solve each single-atom bit
      for (int i = 0; i < 62; i++) { bool want = (nl >> i) & 1; if (w[i].x.empty()) { if (w[i].one != want) return false; } else if (w[i].x.size() == 1) { bool v = want ^ w[i].one; if (!assumeRange(s, w[i].x[0], v, v)) return false; } } } }
  if (nl == nh) { if (!subst(s, sh, C(nl))) return false; return touch(s, sh, depth); }
  return touch(s, sh, depth); }
static bool excl(State& s, Term sh, i64 v, int depth) {
  Iv cur = anyIv(*s.f, sh, 0); if (v < cur.lo || v > cur.hi) return true;
  if (cur.lo == cur.hi) return false;
  if (v == cur.lo) return setIv(s, sh, v + 1, cur.hi, depth + 1); if (v == cur.hi) return setIv(s, sh, cur.lo, v - 1, depth + 1);
  const Fact* x = s.f->iv.get(sh); std::vector<i64> e = x ? exGet(x->ex) : std::vector<i64>(); auto it = std::lower_bound(e.begin(), e.end(), v); if (it != e.end() && *it == v) return true; if (e.size() > 600) return true; e.insert(it, v);
  bool isnew = !x; FactTab& f = s.f.mut(); f.iv.put(sh, {cur.lo, cur.hi, exIntern(e)}); if (isnew && T.kind(sh) == K::Lin) f.multi.push_back(sh); return true; }
bool subst(State& s, Term a, Term v) {
  if (a == v) return true;
  { FactTab& f = s.f.mut(); f.sub.put(a, v); f.subBloom |= T.nodes[a].bloom; if (T.kind(a) == K::Var) f.subBloom |= bloomOf(a); }
  // renormalise interval facts that mention a
  u64 bl = T.nodes[a].bloom; std::vector<std::pair<Term, Fact>> red; s.f->iv.each([&](Term k, const Fact& x) { if (k != a && (T.nodes[k].bloom & bl) == bl) red.push_back({k, x}); });
  for (auto& r : red) { Term n = norm(s, r.first); if (n == r.first) continue; if (!assumeRange(s, n, r.second.lo, r.second.hi)) return false;
    if (r.second.ex) { Term n2 = norm(s, r.first); for (i64 e : exGet(r.second.ex)) { if (isC(n2)) { if (cval(n2) == e) return false; } else { Shape h = shapeOf(n2); if ((e - h.c) % h.g == 0) if (!excl(s, h.s, (e - h.c) / h.g, 1)) return false; n2 = norm(s, n2); } } } }
  // other terms already replaced by a value: the value must agree with what they evaluate to now
  { std::vector<std::pair<Term, Term>> os; s.f->sub.each([&](Term k, const Term& x) { K kk = T.kind(k); if (k != a && (kk == K::Slice || kk == K::Div || kk == K::Mod || kk == K::Bits || kk == K::BitOr || kk == K::BitAnd || kk == K::Lin || kk == K::Ite || kk == K::Crc) && (T.nodes[k].bloom & bl) == bl) os.push_back({k, x}); });
    for (auto& r : os) { Term n = rebuild(r.first, [&](Term c) { return norm(s, c); }); if (n == r.first) continue; Term d = sub(norm(s, n), norm(s, r.second)); if (isC(d)) { if (cval(d)) return false; continue; } if (!assumeRange(s, d, 0, 0)) return false; } }
  // comparisons already decided that now evaluate differently
  std::vector<std::pair<Term, Term>> sb; s.f->sub.each([&](Term k, const Term& x) { if (k != a && T.kind(k) == K::Ind && (T.nodes[k].bloom & bl) == bl && isC(x)) sb.push_back({k, x}); });
  for (auto& r : sb) { i64 k = T.pay(r.first)[0]; if (k == COPQ) continue; Term n; if (k == CEQ0 || k == CLE0) { Term q = norm(s, (Term)T.pay(r.first)[1]); if (q == (Term)T.pay(r.first)[1]) continue; n = k == CEQ0 ? mkEq(q, T0) : mkLe(q, T0); } else if (k == CNULL) { Term q = norm(s, (Term)T.pay(r.first)[1]); if (q == (Term)T.pay(r.first)[1]) continue; n = mkNullp(q); } else continue;
    if (isC(n)) { if (cval(n) != cval(r.second)) return false; } else if (!assumeRange(s, n, cval(r.second), cval(r.second))) return false; }
  return true; }
bool assumeRange(State& s, Term x, i64 lo, i64 hi) {
  x = norm(s, x); if (isC(x)) return cval(x) >= lo && cval(x) <= hi;
  Shape sh = shapeOf(x); i64 nl, nh;
  i64 a = lo <= -INF ? -INF : satadd(lo, -sh.c), b = hi >= INF ? INF : satadd(hi, -sh.c);
  if (sh.g > 0) { nl = a <= -INF ? -INF : cdiv(a, sh.g); nh = b >= INF ? INF : fdiv(b, sh.g); } else { nl = b >= INF ? -INF : cdiv(b, sh.g); nh = a <= -INF ? INF : fdiv(a, sh.g); }
  return setIv(s, sh.s, nl, nh, 0); }
bool assume(State& s, Term c, bool v, bool record) {
  c = norm(s, c); if (isC(c)) return (cval(c) != 0) == v;
  if (T.kind(c) == K::Lin) { const i64* p = T.pay(c); if (T.plen(c) == 3 && p[0] == 1 && p[2] == -1) return assume(s, (Term)p[1], !v, record); }
  Iv i = anyIv(*s.f, c, 0); if (i.lo > i.hi) return false; if (i.lo == i.hi) return (i.lo != 0) == v;
  if (record) s.chain = chainAdd(s.chain, c, v);
  if (!assumeRange(s, c, v ? 1 : 0, v ? 1 : 0)) return false;
  Iv j = ivl(s, c); if (j.lo == j.hi) return (j.lo != 0) == v;
  if (getenv("MB_PROFILE")) fprintf(stderr, "weak assume %d: %s\n", (int)v, show(norm(s, c), 8).c_str());
  return subst(s, norm(s, c), v ? T1 : T0); }
void collectAtoms(Term t, std::vector<Term>& out) {
  K k = T.kind(t);
  if (k == K::Const || k == K::Null || k == K::Fn || k == K::DrvFn || k == K::Undef) return;
  if (k == K::Var || k == K::Crc) { out.push_back(t); return; }
  if (k == K::Ind && T.pay(t)[0] == COPQ) { out.push_back(t); return; }
  if (k == K::Ind) { Term a = T.pay(t)[1], b = T.pay(t)[2]; bool two = T.pay(t)[0] == CPTREQ; collectAtoms(a, out); if (two) collectAtoms(b, out); return; }
  if (k == K::Cell) { out.push_back(t); Term i = T.pay(t)[1]; collectAtoms(i, out); return; }
  if (k == K::App) { out.push_back(t); Term i = T.pay(t)[0]; collectAtoms(i, out); return; }
  if (k == K::Opq) { out.push_back(t); }
  std::vector<Term> ch; rebuild(t, [&](Term x) { ch.push_back(x); return x; });
  if (k == K::Ite) { ch.clear(); for (int i = 0; i < 3; i++) ch.push_back((Term)T.pay(t)[i]); }
  for (Term x : ch) collectAtoms(x, out); }
static Term firstInd(const State& s, Term t, int d) {                // an undecided comparison inside a value
  K k = T.kind(t); if (d > 12 || k == K::Const || k == K::Var || k == K::Cell || k == K::App) return 0;
  if (k == K::Ind && d > 0) { Iv i = ivl(s, t); if (i.lo != i.hi && (T.pay(t)[0] == CEQ0 || T.pay(t)[0] == CLE0)) return t; }
  std::vector<Term> ch; if (k == K::Ite) { for (int i = 0; i < 3; i++) ch.push_back((Term)T.pay(t)[i]); } else rebuild(t, [&](Term x) { ch.push_back(x); return x; });
  for (Term x : ch) if (Term r = firstInd(s, x, d + 1)) return r;
  return 0; }
Iv ivlSplit(const State& s, Term t, int depth) {                     // interval after a case split on the comparisons inside the value
  Iv v = ivl(s, t); if (depth == 0 || v.lo == v.hi) return v; Term q = firstInd(s, norm(s, t), 0); if (!q) return v;
  Iv r{INF, -INF}; for (int b = 0; b < 2; b++) { State u; u.f = s.f; if (!assume(u, q, b, false)) continue; Iv w = ivlSplit(u, t, depth - 1); r.lo = std::min(r.lo, w.lo); r.hi = std::max(r.hi, w.hi); }
  return r.lo > r.hi ? v : isect(r, v); }
static bool feasR(State s, Term c, bool v, int depth, int& budget) {
  // a decided assumption on c, refined by splitting small atoms
  c = norm(s, c); if (isC(c)) return (cval(c) != 0) == v; Iv i = anyIv(*s.f, c, 0); if (i.lo == i.hi) return (i.lo != 0) == v;
  State t = s; if (!assume(t, c, v, false)) return false;
  if (depth == 0 || --budget < 0) return true;
  // indicators inside first, then the smallest atom
  std::vector<Term> at; collectAtoms(norm(s, c), at); Term best = 0; i64 bw = 1 << 20; bool found = false;
  for (Term a : at) { if (T.kind(a) != K::Var && T.kind(a) != K::App && T.kind(a) != K::Slice) continue; Iv r = ivl(t, a); i64 w = r.hi - r.lo; if (w > 0 && w < bw && w <= 300 && norm(t, a) == a) { bw = w; best = a; found = true; } }
  if (!found || bw > 8) if (Term q = firstInd(t, norm(s, c), 0)) { for (int b = 0; b < 2; b++) { State u = s; if (!assume(u, q, b, false)) continue; if (feasR(u, c, v, depth - (b == 1), budget)) return true; } return false; }
  if (!found) return true;
  Iv r = ivl(t, best); for (i64 x = r.lo; x <= r.hi; x++) { State u = s; if (!assumeRange(u, best, x, x)) continue; if (feasR(u, c, v, depth - 1, budget)) return true; if (budget < 0) return true; }
  return false; }
bool feasible(const State& s, Term c, bool v) { int b = 3000; return feasR(s, c, v, 3, b); }
bool provenEq(const State& s, Term a, Term b) {
  if (a == b) return true; Term x = norm(s, a), y = norm(s, b); if (x == y) return true;
  auto ptr = [](Term t) { K k = T.kind(t); return k == K::Ptr || k == K::Cell || k == K::Null || k == K::Fn || k == K::DrvFn || k == K::Undef || k == K::Tuple; };
  if (ptr(x) || ptr(y)) return false;
  return proven(s, mkEq(x, y)); }
Facts hullFacts(const State& a, const State& b) {
  if (a.f.p == b.f.p) return a.f;
  Facts r(new FactTab); FactTab& f = *r;
  State& A = const_cast<State&>(a); State& B = const_cast<State&>(b); const FactTab& fa = *a.f; const FactTab& fb = *b.f;
  fa.sub.each([&](Term k, const Term& v) { const Term* o = fb.sub.get(k); if (o && *o == v) { f.sub.put(k, v); f.subBloom |= T.nodes[k].bloom; } });
  auto add = [&](Term k) { if (f.iv.get(k) || f.sub.get(k)) return; if (T.kind(k) == K::Ind) return; Iv x = ivl(A, k), y = ivl(B, k); i64 lo = std::min(x.lo, y.lo), hi = std::max(x.hi, y.hi);
    const Fact *p = fa.iv.get(k), *q = fb.iv.get(k); std::vector<i64> ex; if (p && q && p->ex && p->ex == q->ex) ex = exGet(p->ex); else { auto one = [&](const Fact* p, Iv o) { if (p && p->ex) for (i64 e : exGet(p->ex)) { if (e < o.lo || e > o.hi) ex.push_back(e); } }; one(p, y); one(q, x); if (p && q) { auto& u = exGet(p->ex); auto& w = exGet(q->ex); std::set_intersection(u.begin(), u.end(), w.begin(), w.end(), std::back_inserter(ex)); } if (!p) for (i64 e = x.hi + 1; e < y.lo && e < x.hi + 300; e++) ex.push_back(e); std::sort(ex.begin(), ex.end()); ex.erase(std::unique(ex.begin(), ex.end()), ex.end()); std::vector<i64> e2; for (auto e : ex) if (e > lo && e < hi) e2.push_back(e); ex = e2; }
    // the gap between two separated intervals is excluded as well
    auto gap = [&](Iv u, Iv w) { for (i64 e = u.hi + 1; e < w.lo && e < u.hi + 64 && w.lo - u.hi < 64; e++) ex.push_back(e); }; if (x.hi < y.lo) gap(x, y); else if (y.hi < x.lo) gap(y, x); std::sort(ex.begin(), ex.end()); ex.erase(std::unique(ex.begin(), ex.end()), ex.end());
    if (lo > tlo(k) || hi < thi(k) || !ex.empty()) { f.iv.put(k, {lo, hi, exIntern(ex)}); if (T.kind(k) == K::Lin) f.multi.push_back(k); } };
  fa.iv.each([&](Term k, const Fact&) { add(k); }); fb.iv.each([&](Term k, const Fact&) { add(k); });
  fa.sub.each([&](Term k, const Term&) { add(k); }); fb.sub.each([&](Term k, const Term&) { add(k); });
  return r; }
