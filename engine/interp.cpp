#include "interp.h"
#include <algorithm>
#include <unordered_map>
#include <cstdio>

static bool isPtrK(K k) { return k == K::Ptr || k == K::Cell || k == K::Null || k == K::Fn || k == K::DrvFn; }
std::string siteStr(const Module& m, const Site& s) {
  std::string r; if (s.fid >= 0) r += m.funcs[s.fid].name; if (s.file >= 0) { std::string f = m.files[s.file]; auto p = f.rfind("/src/"); if (p != std::string::npos) f = f.substr(p + 1); r += " (" + f + ":" + std::to_string(s.line) + ")"; } return r; }
std::string Interp::where() const { return stack.empty() ? "(environment)" : siteStr(m, stack.back()); }
std::string Interp::trace() const { std::string r; for (size_t i = stack.size(); i-- > 0;) { if (!r.empty()) r += " <- "; r += siteStr(m, stack[i]); } return r; }
std::string Interp::cond(const State& s, int n) const { std::vector<std::string> v; for (auto* c = s.chain; c && (int)v.size() < n; c = c->parent) v.push_back((c->val ? "" : "not ") + show(c->lit, 4)); std::string r; for (size_t i = v.size(); i-- > 0;) r += (r.empty() ? "" : "; ") + v[i]; return r; }

Interp::Interp(Module& m_) : m(m_) {
  prof = getenv("MB_PROFILE"); forks.resize(m.funcs.size()); runs.assign(m.funcs.size(), 0);
  fnSeen.assign(m.funcs.size(), 0); blkSeen.resize(m.funcs.size()); liveIn.resize(m.funcs.size());
  for (auto& f : m.funcs) { blkSeen[f.id].assign(f.blocks.size(), 0); if (!f.decl) liveness(f); }
  globRegion.assign(m.globals.size(), -1);
  for (auto& g : m.globals) {
    Region r; r.name = g.srcname.empty() ? g.name : g.srcname; r.size = g.size; r.kind = g.constant ? RK::Const : RK::Glob; r.glob = g.id; r.chunk0 = init.mem.size(); r.bytes = g.byteArray || g.ptrRows;
    for (i64 i = 0; i * CH < g.size; i++) { init.mem.push_back(CP(new Chunk)); for (auto& e : init.mem.back()->e) e = {T0, 1, 0, 0}; }
    globRegion[g.id] = regions.size(); regions.push_back(r);
    if (g.decl) for (i64 i = 0; i < g.size; i++) *cell(init, globRegion[g.id], i) = CellE{TUndef, 1, 0, 0};
  }
  for (auto& g : m.globals) for (auto& c : g.init) {
    Term v; switch (c.k) { case InitCell::Int: { i64 x = c.v; if (c.size == 4) x = (i64)(int32_t)x; v = C(x); break; } case InitCell::Null: v = TNull; break; case InitCell::Func: v = mkFn(c.id); break; default: v = mkPtr(globRegion[c.id], C(c.v)); }
    storeC(init, globRegion[g.id], c.off, c.size, v); }
  nstatic = regions.size();
}
int Interp::addRegion(State& s, const std::string& name, i64 size, RK k) {
  Region r; r.name = name; r.size = size; r.kind = k; r.chunk0 = s.mem.size(); for (i64 i = 0; i * CH < size; i++) s.mem.push_back(CP(new Chunk));
  regions.push_back(r); nstatic = regions.size(); return regions.size() - 1; }
int Interp::addExtRegion(const std::string& name, Term bound, int elem, RK k) { Region r; r.name = name; r.size = 0; r.kind = k; r.bound = bound; r.elem = elem; regions.push_back(r); nstatic = regions.size(); return regions.size() - 1; }
void Interp::makeTable(int glob) { regions[globRegion[glob]].kind = RK::Table; }
const std::string Interp::regName(const State& s, i64 r) const { if (r < nstatic) return regions[r].name; size_t k = r - nstatic; return k < s.locals.size() ? "local " + *s.locals[k].name : "dead local"; }
i64 Interp::regSize(const State& s, i64 r) const { if (r < nstatic) return regions[r].size; size_t k = r - nstatic; return k < s.locals.size() ? s.locals[k].size : -1; }
CellE* Interp::cell(State& s, i64 r, i64 off) { int c0 = r < (i64)regions.size() ? regions[r].chunk0 : s.locals[r - nstatic].chunk0; return &s.mem[c0 + off / CH].mut().e[off % CH]; }
const CellE* Interp::cellR(const State& s, i64 r, i64 off) const { int c0 = r < (i64)regions.size() ? regions[r].chunk0 : s.locals[r - nstatic].chunk0; return &s.mem[c0 + off / CH].p->e[off % CH]; }
Term Interp::loadC(State& s, i64 r, i64 off, int size, bool ptr) {
  const CellE* c = cellR(s, r, off); if (c->size == size && c->pos == 0) { bool ok = true; for (int i = 1; i < size && ok; i++) { const CellE* d = cellR(s, r, off + i); ok = d->size == size && d->pos == i && d->t == c->t; } if (ok) return c->t; }
  Term v = T0; bool allz = true;
  for (int i = 0; i < size; i++) { const CellE* d = cellR(s, r, off + i); if (d->size == 0 || d->t == TUndef) return TUndef; if (!(isC(d->t) && cval(d->t) == 0)) allz = false; if (isPtrK(T.kind(d->t)) && T.kind(d->t) != K::Null) return TUndef; if (T.kind(d->t) == K::Null) continue; v = add(v, mulc(d->size == 1 ? d->t : mkSlice(d->t, 8 * d->pos, 8), (i64)1 << (8 * i))); }
  if (ptr) return allz || (isC(v) && cval(v) == 0) ? TNull : TUndef;
  if (size == 4) return canonW(s, v, 32); return v; }
void Interp::storeC(State& s, i64 r, i64 off, int size, Term v) { for (int i = 0; i < size; i++) *cell(s, r, off + i) = CellE{v, (u8)size, (u8)i, 0}; }

// a small struct carried in a register: parts (bit offset, bits, value); bits of no part are undefined
struct Part { i64 off, bits; Term t; };
static bool isParts(Term t) { return t != TUndef && T.kind(t) == K::Tuple; }
static Term mkParts(std::vector<Part> v) { std::sort(v.begin(), v.end(), [](const Part& a, const Part& b) { return a.off < b.off; }); if (v.empty()) return TUndef; std::vector<Term> p; for (auto& q : v) { p.push_back(C(q.off)); p.push_back(C(q.bits)); p.push_back(q.t); } return mkTuple(p); }
static void partsOf(Term t, i64 w, std::vector<Part>& out) { if (t == TUndef) return; if (isParts(t)) { auto* p = T.pay(t); int n = T.nodes[t].len; for (int i = 0; i + 2 < n; i += 3) out.push_back({cval((Term)p[i]), cval((Term)p[i + 1]), (Term)p[i + 2]}); return; } out.push_back({0, w, t}); }
static Term cutPart(const Part& q, i64 from, i64 n) { return from == 0 && n == q.bits ? q.t : mkSlice(q.t, from, n); }   // (a part never splits a pointer)
static Term extParts(Term t, i64 off, i64 bits) {
  if (t != TUndef && T.kind(t) == K::Ite && (isParts((Term)T.pay(t)[1]) || isParts((Term)T.pay(t)[2]))) { Term a = extParts((Term)T.pay(t)[1], off, bits), b = extParts((Term)T.pay(t)[2], off, bits); return a == TUndef || b == TUndef ? TUndef : mkIte((Term)T.pay(t)[0], a, b); }
  std::vector<Part> v, r; partsOf(t, 64, v);
  for (auto& q : v) { i64 lo = std::max(q.off, off), hi = std::min(q.off + q.bits, off + bits); if (lo >= hi) continue; if ((lo != q.off || hi != q.off + q.bits) && isPtrK(T.kind(q.t))) return TUndef; r.push_back({lo - off, hi - lo, cutPart(q, lo - q.off, hi - lo)}); }
  if (r.size() == 1 && r[0].off == 0 && r[0].bits == bits) return r[0].t;
  return mkParts(r); }
static Term insParts(Term base, i64 w, Term v, i64 off, i64 bits) {
  std::vector<Part> b, r, n; partsOf(base, w, b); partsOf(v, bits, n);
  for (auto& q : b) { i64 e = q.off + q.bits; if (e <= off || q.off >= off + bits) { r.push_back(q); continue; } if (isPtrK(T.kind(q.t))) continue; if (q.off < off) r.push_back({q.off, off - q.off, cutPart(q, 0, off - q.off)}); if (e > off + bits) r.push_back({off + bits, e - off - bits, cutPart(q, off + bits - q.off, e - off - bits)}); }
  for (auto& q : n) r.push_back({q.off + off, q.bits, q.t});
  if (r.size() == 1 && r[0].off == 0 && r[0].bits == w) return r[0].t;
  return mkParts(r); }
static Term wholeParts(Term t, i64 w) {   // the integer the parts make up (undefined if a bit is)
  if (!isParts(t)) return t; std::vector<Part> v; partsOf(t, w, v); i64 at = 0; Term r = T0; for (auto& q : v) { if (q.off != at || isPtrK(T.kind(q.t))) return TUndef; if (q.off + q.bits > 62 && !isC(q.t)) throw Undecided{"64-bit value made of parts"}; r = add(r, mulc(mkSlice(q.t, 0, std::min<i64>(q.bits, 62)), (i64)1 << q.off)); at = q.off + q.bits; }
  return at >= w ? r : TUndef; }

Term unwrap(State& s, Term t);
Term canonW(const State& s, Term t, int w) {
  if (t == TUndef || isPtrK(T.kind(t))) return t;
  if (w >= 64) return t; if (w == 1) return mkSlice(t, 0, 1);
  i64 M = (i64)1 << w;
  if (w < 32) { if (tlo(t) >= 0 && thi(t) < M) return t; if (isC(t)) return mkSlice(t, 0, w); Iv v = ivl(s, t); if (v.lo >= 0 && v.hi < M) return t; if (v.lo >= -M && v.hi < 0) return addc(t, M); if (v.lo >= M && v.hi < 2 * M) return addc(t, -M); if (T.kind(t) == K::Lin && v.lo > -M && v.hi < 65536 * M) { v = ivlSplit(s, t); if (v.lo >= 0 && v.hi < M) return t; } return mkSlice(t, 0, w); }
  i64 H = (i64)1 << (w - 1); if (tlo(t) >= -H && thi(t) < H) return t; Iv v = ivl(s, t); if (v.lo >= -H && v.hi < H) return t; if (v.lo >= H && v.hi < H + M) return addc(t, -M); if (v.hi < -H && v.lo >= -H - M) return addc(t, M); if (T.kind(t) == K::Lin && v.lo > -2 * M && v.hi < 2 * M) { v = ivlSplit(s, t); if (v.lo >= -H && v.hi < H) return t; }
  return addc(mkSlice(addc(t, H), 0, w), -H); }

// a wrapped value (low bits of a sum) whose sum meanwhile lies in one period: the sum itself
static Term unwrapAtom(State& s, Term a) {
  if (T.kind(a) != K::Slice) return a; const i64* p = T.pay(a); i64 len = p[2]; if (p[1] != 0 || (len != 8 && len != 16 && len != 32)) return a; Term x = (Term)p[0]; if (T.kind(x) != K::Lin) return a;
  if (const Term* q = s.f->sub.get(a)) return *q; Term y = unwrap(s, x); Iv v = ivl(s, y); if (v.lo <= -INF || v.hi >= INF || v.lo > v.hi || (v.lo >> len) != (v.hi >> len)) return y == x ? a : mkSlice(y, 0, len);
  Term r = addc(y, -((v.lo >> len) << len)); if (s.f->iv.get(a)) { State t = s; if (subst(t, a, r)) s = t; } return r; }
Term unwrap(State& s, Term t) {
  if (T.kind(t) == K::Slice) return unwrapAtom(s, t); if (T.kind(t) != K::Lin) return t;
  bool any = false; { const i64* p = T.pay(t); u32 n = T.plen(t); for (u32 i = 1; i < n; i += 2) { Term a = (Term)p[i]; if (T.kind(a) == K::Slice && T.pay(a)[1] == 0) any = true; } } if (!any) return t;
  LinV l = lin(t); Term r = C(l.c); for (auto& e : l.a) r = add(r, mulc(unwrapAtom(s, e.first), e.second)); return r; }

void Interp::liveness(const Func& f) {
  int nb = f.blocks.size(); auto& L = liveIn[f.id]; L.assign(nb, std::vector<u8>(f.nregs, 0)); bool ch = true;
  while (ch) { ch = false;
    for (int b = nb - 1; b >= 0; b--) { std::vector<u8> cur(f.nregs, 0); auto& B = f.blocks[b];
      for (int s : B.insts.back().succ) { for (int i = 0; i < f.nregs; i++) cur[i] |= L[s][i]; for (auto& in : f.blocks[s].insts) { if (in.op != Op::Phi) break; cur[in.dst] = 0; for (size_t k = 0; k < in.ops.size(); k++) if (in.succ[k] == b && in.ops[k].k == Opnd::Reg) cur[in.ops[k].id] = 1; } }
      for (size_t i = B.insts.size(); i-- > 0;) { auto& in = B.insts[i]; if (in.op == Op::Phi) { cur[in.dst] = 1; continue; } if (in.dst >= 0) cur[in.dst] = 0; for (auto& o : in.ops) if (o.k == Opnd::Reg) cur[o.id] = 1; }
      if (cur != L[b]) { L[b] = cur; ch = true; } } } }

// ---- joins
static bool mergeTerm(Term lit, bool inA, Term a, Term b, Term& out) {
  if (a == b) { out = a; return true; }
  if (a == TUndef || b == TUndef || a == 0xffffffff) return false;
  bool pa = isPtrK(T.kind(a)), pb = isPtrK(T.kind(b)); auto itp = [](Term t) { return T.kind(t) == K::Ite; };
  if ((pa != pb) && !(itp(a) || itp(b))) { if (isC(a) || isC(b)) return false; }
  out = inA ? mkIte(lit, a, b) : mkIte(lit, b, a); return T.kind(out) != K::Ite; }   // only joins without loss of relation
bool Interp::tryMerge(State& a, Term ra, const State& b, Term rb, Term lit, bool inA, std::vector<Term>* va, const std::vector<Term>* vb, const std::vector<u8>* live, Term* rout) {
  if (a.mem.size() != b.mem.size() || a.locals.size() != b.locals.size() || memcmp(a.g, b.g, sizeof a.g)) return false;
  // logs
  LogNode* la = a.log; LogNode* lb = b.log; std::vector<std::pair<LogNode*, LogNode*>> lg;
  while (la != lb) { if (!la || !lb || la->n != lb->n || la->kind != lb->kind || la->a.size() != lb->a.size() || lg.size() > 40) return false; lg.push_back({la, lb}); la = la->parent; lb = lb->parent; }
  LogNode* nl = la;
  for (size_t i = lg.size(); i-- > 0;) { std::vector<i64> x(lg[i].first->a.size()); for (size_t k = 0; k < x.size(); k++) { Term o; if (!mergeTerm(lit, inA, lg[i].first->a[k], lg[i].second->a[k], o)) return false; x[k] = o; } nl = logAdd(nl, lg[i].first->kind, x); }
  std::vector<Term> nv; if (va) { nv = *va; for (size_t i = 0; i < nv.size(); i++) if (nv[i] != (*vb)[i]) { if (live && !(*live)[i]) { nv[i] = 0; continue; } if (!mergeTerm(lit, inA, (*va)[i], (*vb)[i], nv[i])) return false; } }
  Term nr = 0; if (rout && !mergeTerm(lit, inA, ra, rb, nr)) return false;
  struct D { int c, o; CellE e; }; std::vector<D> ds; int groups = 0;
  for (size_t c = 0; c < a.mem.size(); c++) { if (a.mem[c].p == b.mem[c].p) continue; const Chunk &x = *a.mem[c].p, &y = *b.mem[c].p;
    for (int i = 0; i < CH; i++) { if (x.e[i] == y.e[i]) continue; CellE p = x.e[i], q = y.e[i]; if (p.size == 0 || q.size == 0) return false; CellE e; Term o;
      if (p.size == q.size && p.pos == q.pos) { if (p.pos == 0 && ++groups > 48) return false; if (!mergeTerm(lit, inA, p.t, q.t, o)) return false; e = {o, p.size, p.pos, 0}; }
      else { if (isPtrK(T.kind(p.t)) || isPtrK(T.kind(q.t)) || p.t == TUndef || q.t == TUndef) return false; Term s = p.size == 1 ? p.t : mkSlice(p.t, 8 * p.pos, 8), t = q.size == 1 ? q.t : mkSlice(q.t, 8 * q.pos, 8); if (++groups > 48 || !mergeTerm(lit, inA, s, t, o)) return false; e = {o, 1, 0, 0}; }
      ds.push_back({(int)c, i, e}); } }
  State r = a; r.f = hullFacts(a, b); r.log = nl;
  for (auto& d : ds) r.mem[d.c].mut().e[d.o] = d.e;
  // common decisions
  std::vector<ChainNode*> keep; ChainNode* n = a.chain; std::unordered_map<u64, int> inB; { int k = 0; for (auto* q = b.chain; q && k < 4000; q = q->parent, k++) inB[(u64)q->lit * 2 + q->val] = 1; }
  // drop the literal; keep those of a that b shares
  ChainNode* stop = n; while (stop && stop->lit != lit) { if (inB.count((u64)stop->lit * 2 + stop->val)) keep.push_back(stop); stop = stop->parent; }
  if (stop) stop = stop->parent; for (size_t i = keep.size(); i-- > 0;) stop = chainAdd(stop, keep[i]->lit, keep[i]->val); r.chain = stop;
  a = std::move(r); if (va) *va = nv; if (rout) *rout = nr; mergeCount++; return true; }
static const int LITWIN = 14;
static u64 litKey(const State& s, ChainNode* c) { return (s.chain->h - litHash(c->lit, c->val)) * 0x9E3779B97F4A7C15ull + c->lit; }
void mergeOuts(Interp& I, std::vector<Out>& outs) {
  if (outs.size() < 2) return;
  std::vector<Out> res; std::unordered_map<u64, int> idx; std::vector<u8> dead; struct M : Interp { using Interp::tryMerge; };
  for (auto& o0 : outs) { Out o = std::move(o0); bool again = true;
    while (again) { again = false; int k = 0; for (auto* c = o.s.chain; c && k < LITWIN; c = c->parent, k++) { auto it = idx.find(litKey(o.s, c)); if (it == idx.end() || dead[it->second]) continue; Out& p = res[it->second]; if (c->lit == 0) continue;
        // opposite polarity?
        bool opp = false; int j = 0; for (auto* d = p.s.chain; d && j < LITWIN; d = d->parent, j++) if (d->lit == c->lit) { opp = d->val != c->val; break; } if (!opp) continue;
        Term r; if (static_cast<M&>(I).tryMerge(o.s, o.ret, p.s, p.ret, c->lit, c->val, nullptr, nullptr, nullptr, &r)) { o.ret = r; dead[it->second] = 1; again = true; break; } } }
    int id = res.size(); int k = 0; for (auto* c = o.s.chain; c && k < LITWIN; c = c->parent, k++) idx[litKey(o.s, c)] = id;
    res.push_back(std::move(o)); dead.push_back(0); }
  outs.clear(); for (size_t i = 0; i < res.size(); i++) if (!dead[i]) outs.push_back(std::move(res[i])); }

struct Need { int k = 0; Term t = 0; };                            // 1: decide literal, 2: enumerate values, 3: drop path

// lookup in a constant table that is affine over GF(2) in the varying index bits: the entry is the exclusive-or of fixed words
bool Interp::affineLoad(State& s, i64 r, Term off, int size, Term& out) {
  if (tlo(off) < 0 || thi(off) > 65536) return false; Word ow; if (!toBits(off, 17, ow)) return false; i64 base = 0, mask = 0; std::vector<int> pos; for (int i = 0; i < 17; i++) { if (ow[i].x.empty()) { if (ow[i].one) base |= 1 << i; } else { pos.push_back(i); mask |= 1 << i; } } if (pos.empty() || pos.size() > 12) return false;
  auto key = std::make_tuple(r, base, mask, size); auto it = affineMemo.find(key); if (it == affineMemo.end()) { std::vector<i64> d; bool ok = base + mask + size <= regions[r].size; auto at = [&](i64 o, i64& v) { Term t = loadC(s, r, o, size); if (!isC(t)) return false; v = cval(t); return true; };
    i64 b0 = 0; ok = ok && at(base, b0); for (size_t i = 0; i < pos.size() && ok; i++) { i64 v; ok = at(base | ((i64)1 << pos[i]), v); d.push_back(v ^ b0); } d.push_back(b0);
    for (u32 m = 0; m < (1u << pos.size()) && ok; m++) { i64 o = base, e = b0, v; for (size_t i = 0; i < pos.size(); i++) if (m >> i & 1) { o |= (i64)1 << pos[i]; e ^= d[i]; } ok = at(o, v) && v == e; } if (!ok) d.clear(); it = affineMemo.emplace(key, d).first; }
  auto& d = it->second; if (d.empty()) return false; Word w(8 * size > 62 ? 62 : 8 * size); for (size_t b = 0; b < w.size(); b++) { w[b].one = d.back() >> b & 1; for (size_t i = 0; i < pos.size(); i++) if (d[i] >> b & 1) w[b] = bxor(w[b], ow[pos[i]]); } out = fromBits(w); return true; }
void Interp::run(int fid, const std::vector<Term>& args, const State& s0, std::vector<Out>& outs) {
  const Func& f = m.funcs[fid]; std::vector<Out> my;
  if ((int)stack.size() > depthCap) { report(s0, VK::Recursion, "call nesting exceeds " + std::to_string(depthCap) + " in " + f.name + " (unbounded recursion)"); return; }
  if (f.blocks.empty()) throw Undecided{"no body: " + f.name};
  fnSeen[fid] = 1; runs[fid]++; stack.push_back({fid, f.file, f.line});
  size_t nloc = s0.locals.size(), nmem = s0.mem.size();
  std::vector<std::deque<Item>> pend(f.blocks.size()); std::vector<std::unordered_map<u64, u64>> keys(f.blocks.size()); std::vector<u64> baseId(f.blocks.size(), 0); // per block order
  int lowest = 0; u64 alive = 0;
  // pending items live in deques indexed by order; merge index: key -> serial number
  auto push = [&](Item&& it) {
    int o = f.blocks[it.blk].order; auto& B = f.blocks[it.blk];
    if (it.idx == 0 && B.preds.size() >= 2) {
      // evaluate phis now so that joined values are compared after selection
      std::vector<std::pair<int, Term>> pv; int k = 0; for (auto& in : B.insts) { if (in.op != Op::Phi) break; k++; for (size_t q = 0; q < in.ops.size(); q++) if (in.succ[q] == it.prev) { auto& op = in.ops[q]; Term v; switch (op.k) { case Opnd::Const: v = C(op.v); break; case Opnd::Reg: v = it.r[op.id]; break; case Opnd::Glob: v = mkPtr(globRegion[op.id], C(op.v)); break; case Opnd::Func: v = mkFn(op.id); break; case Opnd::Null: v = TNull; break; default: v = TUndef; } pv.push_back({in.dst, v}); break; } }
      for (auto& p : pv) it.r[p.first] = p.second; it.idx = k; auto& lv = liveIn[fid][it.blk]; for (int i = 0; i < f.nregs; i++) if (!lv[i]) it.r[i] = 0;
      auto& Kx = keys[o]; auto& D = pend[o]; bool again = true;
      while (again && it.s.chain) { again = false; int n = 0;
        for (auto* c = it.s.chain; c && n < LITWIN; c = c->parent, n++) { auto q = Kx.find(litKey(it.s, c)); if (q == Kx.end()) continue; u64 pos = q->second - baseId[o]; if (q->second < baseId[o] || pos >= D.size()) continue; Item& p = D[pos]; if (p.blk < 0 || p.idx != it.idx || p.loops != it.loops) continue;
          bool opp = false; int j = 0; for (auto* d = p.s.chain; d && j < LITWIN; d = d->parent, j++) if (d->lit == c->lit) { opp = d->val != c->val; break; } if (!opp) continue;
          if (tryMerge(it.s, 0, p.s, 0, c->lit, c->val, &it.r, &p.r, &lv, nullptr)) { p.blk = -1; p.s = State(); alive--; again = true; break; } } }
      u64 id = baseId[o] + D.size(); int n = 0; for (auto* c = it.s.chain; c && n < LITWIN; c = c->parent, n++) Kx[litKey(it.s, c)] = id;
    }
    pend[o].push_back(std::move(it)); alive++; if (o < lowest) lowest = o; };
  { Item it; it.s = s0; it.r.assign(f.nregs, TUndef); for (int i = 0; i < f.nargs && i < (int)args.size(); i++) it.r[f.argRegs[i]] = args[i]; it.blk = 0; push(std::move(it)); }
  while (alive) {
    while (lowest < (int)pend.size() && pend[lowest].empty()) lowest++;
    int pick = lowest; if (alive > 4096) { pick = pend.size() - 1; while (pick > lowest && pend[pick].empty()) pick--; }   // joins do not keep up: finish paths first, so that what they show is reported
    Item it = std::move(pend[pick].front()); pend[pick].pop_front(); baseId[pick]++; if (it.blk < 0) continue; alive--;
    bool done = false; stateCount++;
    while (!done) {
      const Block& B = f.blocks[it.blk]; if (it.idx == 0 || !blkSeen[fid][it.blk]) { if (!blkSeen[fid][it.blk]) { blkSeen[fid][it.blk] = 1; blocks++; } }
      const Inst& in = B.insts[it.idx]; if (in.line) { stack.back().line = in.line; stack.back().file = in.file; }
      if (prof && steps % 4000000 == 0) { fprintf(stderr, "-- steps %lu merges %lu: %s\n", (unsigned long)steps, (unsigned long)mergeCount, trace().c_str()); for (auto& g : m.funcs) { if (!runs[g.id]) continue; fprintf(stderr, "  %s runs %lu:", g.name.c_str(), (unsigned long)runs[g.id]); for (auto& q : forks[g.id]) fprintf(stderr, " %d:%lu", q.first, (unsigned long)q.second); fprintf(stderr, "\n"); } }
      if (++steps > budget) throw Undecided{"analysis budget exceeded in " + f.name};
      Need need; State& s = it.s; auto& R = it.r;
      auto V = [&](const Opnd& o) -> Term { switch (o.k) { case Opnd::Const: return C(o.v); case Opnd::Reg: { Term t = R[o.id]; if (t != TUndef && (T.kind(t) == K::Slice || T.kind(t) == K::Lin)) R[o.id] = t = unwrap(s, t); return t; } case Opnd::Glob: return mkPtr(globRegion[o.id], C(o.v)); case Opnd::Func: return mkFn(o.id); case Opnd::Null: return TNull; case Opnd::Undef: return TUndef; default: throw Undecided{"unsupported operand in " + where()}; } };
      auto lit = [&](Term c) { need.k = 1; need.t = c; }; auto enumv = [&](Term t) { need.k = 2; need.t = t; }; auto drop = [&] { need.k = 3; };
      // pointer resolution: region/offset or application cell
      auto resolve = [&](Term p, bool write, i64& region, Term& off, Term& app) -> bool {
        p = norm(s, p); app = 0;
        switch (T.kind(p)) {
          case K::Ptr: region = ptrReg(p); off = ptrOff(p); return true;
          case K::Ite: lit((Term)T.pay(p)[0]); if (decide(s, need.t) >= 0) { need.k = 0; Term q = decide(s, need.t) ? (Term)T.pay(p)[1] : (Term)T.pay(p)[2]; region = -2; off = q; return true; } return false;
          case K::Null: report(s, VK::Null, std::string(write ? "write" : "read") + " through a null pointer"); drop(); return false;
          case K::Undef: report(s, VK::Uninit, std::string(write ? "write" : "read") + " through an uninitialised pointer"); drop(); return false;
          case K::Cell: { Term z = mkNullp(p); int d = decide(s, z); if (d < 0) { lit(z); return false; } if (d == 1) { report(s, VK::Null, "access through an unregistered (null) application pointer " + show(p)); drop(); return false; } app = p; return true; }
          case K::Fn: case K::DrvFn: report(s, VK::WriteConst, "data access through a function pointer"); drop(); return false;
          default: throw Undecided{"cannot resolve pointer " + show(p) + " in " + where()};
        } };
      auto resolve2 = [&](Term p, bool write, i64& region, Term& off, Term& app) -> bool { for (int k = 0; k < 64; k++) { if (!resolve(p, write, region, off, app)) return false; if (app || region != -2) return true; p = off; } return false; };
      // bounds of an access; makes offsets concrete where storage is concrete
      auto bounds = [&](i64 r, Term& off, i64 size, bool write, bool symOk) -> bool {
        if (r >= nstatic && (size_t)(r - nstatic) >= s.locals.size()) { report(s, VK::Dangling, "access to a local variable that no longer exists"); drop(); return false; }
        bool ext = r < nstatic && (regions[r].kind == RK::Ext); Term lim = ext ? mulc(regions[r].bound, regions[r].elem) : C(regSize(s, r));
        Term lowok = mkLe(T0, off), hiok = mkLe(addc(off, size), lim);
        for (Term c : {lowok, hiok}) { int d = decide(s, c); if (d == 1) continue; bool bad = d == 0 || feasible(s, c, false);
          if (bad) { env->violation(*this, s, VK::OOB, std::string(write ? "write" : "read") + " of " + std::to_string(size) + " byte(s) at offset " + show(norm(s, off)) + " outside " + regName(s, r) + " (" + show(norm(s, lim)) + " bytes)"); if (d == 0 || !assume(s, c, true, false)) { drop(); return false; } }
          else if (!assume(s, c, true, false)) { drop(); return false; } }
        Term o = norm(s, off); if (!isC(o) && !symOk) { Iv v = ivl(s, o); if (v.lo == v.hi) { off = C(v.lo); return true; } enumv(o); return false; }
        off = o; return true; };
      auto checkVal = [&](Term v, const char* what) -> bool { if (v == TUndef) { report(s, VK::Uninit, std::string("uninitialised value used as ") + what); drop(); return false; } return true; };
      auto doLoad = [&](i64 r, Term off, int size, bool isPtr, Term& out) -> bool {
        RK k = r < nstatic ? regions[r].kind : RK::Local; env->access(*this, s, r, off, size, false);
        if (k == RK::Table) { if (size != m.ptrSize) throw Undecided{"partial access to a registration table in " + where()}; out = env->tableLoad(*this, s, r, mkDiv(norm(s, off), m.ptrSize)); return true; }
        if (k == RK::Ext) { if (size != regions[r].elem || (cval(off) % regions[r].elem)) throw Undecided{"unaligned access to caller data in " + where()}; out = mkVar(VEXT, r, cval(off) / size, 0, size == 1 ? 1 : size == 2 ? 65535 : INF); return true; }
        if (k == RK::Drv) { i64 sl = cval(off) / m.ptrSize; Term fn = mkDrvFn(regions[r].side, sl); if (sl == 3) fn = mkIte(mkSym("driver has disable_rcev", 0, 1), fn, TNull); out = fn; return true; }
        out = loadC(s, r, cval(off), size, isPtr); return true; };
      auto doStore = [&](i64 r, Term off, int size, Term v) -> bool {
        RK k = r < nstatic ? regions[r].kind : RK::Local;
        env->access(*this, s, r, off, size, true);
        if (k == RK::Const || k == RK::Drv) { report(s, VK::WriteConst, "write to constant object " + regName(s, r)); drop(); return false; }
        if (k == RK::Ext) { report(s, VK::WriteConst, "write to the caller's data array"); drop(); return false; }
        if (k == RK::Table) { if (size != m.ptrSize) throw Undecided{"partial access to a registration table in " + where()}; env->tableStore(*this, s, r, mkDiv(norm(s, off), m.ptrSize), v); return true; }
        storeC(s, r, cval(off), size, v); return true; };
      bool advance = true;
      // Truth of a condition that must be decided
      switch (in.op) {
        case Op::Nop: break;
        case Op::Phi: { std::vector<std::pair<int, Term>> pv; int k = it.idx; while (B.insts[k].op == Op::Phi) { auto& p = B.insts[k]; for (size_t q = 0; q < p.ops.size(); q++) if (p.succ[q] == it.prev) { pv.push_back({p.dst, V(p.ops[q])}); break; } k++; } for (auto& p : pv) R[p.first] = p.second; it.idx = k - 1; break; }
        case Op::Alloca: { if (in.size < 0) throw Undecided{"variable-size local in " + where()}; static std::vector<std::string*> names; LocalReg l; l.chunk0 = s.mem.size(); l.size = in.size; l.name = &in.text; for (i64 i = 0; i * CH < in.size; i++) s.mem.push_back(CP(new Chunk)); s.locals.push_back(l); R[in.dst] = mkPtr(nstatic + s.locals.size() - 1, T0); break; }
        case Op::Load: {
          i64 r; Term off, app; if (!resolve2(V(in.ops[0]), false, r, off, app)) break;
          if (app) { R[in.dst] = env->appLoad(*this, s, app, in.size); break; }
          if (r < nstatic && regions[r].kind == RK::Const && in.width > 1 && !isC(norm(s, off))) { Term v; if (affineLoad(s, r, norm(s, off), in.size, v)) { env->access(*this, s, r, off, in.size, false); R[in.dst] = v; break; } }
          bool tab = r < nstatic && regions[r].kind == RK::Table, sym = in.size == 1 && in.width > 0 && r < nstatic && regions[r].kind == RK::Glob && regions[r].bytes && !isC(norm(s, off)); if (!bounds(r, off, in.size, false, tab || sym)) break;
          if (sym && !isC(off)) { Term v; if (env->symLoad(s, r, off, v)) { env->access(*this, s, r, off, in.size, false); R[in.dst] = v; break; } if (!bounds(r, off, in.size, false, false)) break; }
          if (!it.noPre && r < nstatic && regions[r].kind == RK::Glob && isC(off)) { std::vector<State> alts; if (env->preempt(*this, s, r, cval(off), in.size, false, alts)) { for (auto& a : alts) { Item c; c.s = a; c.r = R; c.blk = it.blk; c.idx = it.idx; c.prev = it.prev; c.loops = it.loops; c.noPre = true; push(std::move(c)); } } }
          if ((in.size >= 3 && in.size <= 8) && in.width > 1 && isC(off) && r < (i64)(nstatic + s.locals.size()) && (r >= nstatic || (regions[r].kind == RK::Glob && !regions[r].bytes)) && cval(off) >= 0) {   // several members of a struct at once
            const CellE* c0 = cellR(s, r, cval(off)); bool uni = c0->pos == 0 && c0->size == in.size; std::vector<Part> ps; bool okp = !uni;
            for (i64 i = 0; i < in.size && okp;) { const CellE* c = cellR(s, r, cval(off) + i); if (c->t == TUndef || c->size == 0) { i++; continue; } i64 n = 1; while (i + n < in.size && c->pos + n < c->size) { const CellE* d = cellR(s, r, cval(off) + i + n); if (d->t != c->t || d->size != c->size || d->pos != c->pos + n) break; n++; } if (isPtrK(T.kind(c->t)) && (c->pos || n != c->size)) { okp = false; break; } ps.push_back({8 * i, 8 * n, c->pos == 0 && n == c->size ? c->t : mkSlice(c->t, 8 * c->pos, 8 * n)}); i += n; }
            if (okp && !ps.empty()) { bool allc = true; for (auto& q : ps) if (!isC(q.t)) allc = false; if (!allc || in.size == 8) { env->access(*this, s, r, off, in.size, false); R[in.dst] = mkParts(ps); break; } } }
          Term v; if (!doLoad(r, off, in.size, in.width == 0, v)) break;
          if (v == TUndef) { report(s, VK::Uninit, "read of uninitialised memory in " + regName(s, r)); drop(); break; }
          if (in.width == 1) v = mkSlice(v, 0, 1);
          if (in.width == 0 && !isPtrK(T.kind(v)) && T.kind(v) != K::Ite) { if (isC(v) && cval(v) == 0) v = TNull; else throw Undecided{"integer used as a pointer in " + where() + ": " + show(v)}; }
          if (in.width == 0 && T.kind(v) == K::Ptr && ptrReg(v) >= nstatic && (size_t)(ptrReg(v) - nstatic) >= s.locals.size()) { report(s, VK::Dangling, "use of a pointer to a local variable that no longer exists"); drop(); break; }
          R[in.dst] = v; break; }
        case Op::Store: {
          i64 r; Term off, app; Term v = V(in.ops[0]); if (!resolve2(V(in.ops[1]), true, r, off, app)) break;
          if (v == TUndef) { if (!checkVal(v, "a stored value")) break; }
          if (app) { env->appStore(*this, s, app, in.size, v); break; }
          bool tab = r < nstatic && regions[r].kind == RK::Table; if (!bounds(r, off, in.size, true, tab)) break;
          if (!it.noPre && r < nstatic && regions[r].kind == RK::Glob && isC(off)) { std::vector<State> alts; if (env->preempt(*this, s, r, cval(off), in.size, true, alts)) { for (auto& a : alts) { Item c; c.s = a; c.r = R; c.blk = it.blk; c.idx = it.idx; c.prev = it.prev; c.loops = it.loops; c.noPre = true; push(std::move(c)); } } }
          if (isParts(v)) { std::vector<Part> ps; partsOf(v, 8 * in.size, ps); i64 at = 0; bool ok = true; auto gap = [&](i64 to) { for (; at < to && ok; at++) ok = doStore(r, addc(off, at), 1, TUndef); }; for (auto& q : ps) { if (q.off % 8 || q.bits % 8) throw Undecided{"store of a bit field in " + where()}; gap(q.off / 8); if (ok) ok = doStore(r, addc(off, q.off / 8), q.bits / 8, q.t); at = (q.off + q.bits) / 8; } gap(in.size); break; }
          doStore(r, off, in.size, v); break; }
        case Op::Ins: R[in.dst] = insParts(V(in.ops[0]), in.srcw ? in.srcw : 128, V(in.ops[1]), in.imm[0], in.imm[1]); break;
        case Op::Ext: R[in.dst] = extParts(V(in.ops[0]), in.imm[0], in.imm[1]); break;
        case Op::Gep: {
          Term p = V(in.ops[0]); Term d = C(in.imm[0]); bool un = false; for (size_t i = 1; i < in.ops.size(); i++) { Term x = V(in.ops[i]); if (x == TUndef) un = true; else d = add(d, mulc(x, in.imm[i])); }
          if (un) { checkVal(TUndef, "an array index"); break; }
          std::function<Term(Term)> mv = [&](Term q) -> Term { switch (T.kind(q)) { case K::Ptr: return mkPtr(ptrReg(q), add(ptrOff(q), d)); case K::Ite: return mkIte((Term)T.pay(q)[0], mv((Term)T.pay(q)[1]), mv((Term)T.pay(q)[2])); case K::Undef: return q; default: if (isC(d) && cval(d) == 0) return q; return 0xffffffff; } };
          if (p == TUndef) { checkVal(p, "a pointer"); break; }
          // field address computed from a possibly null base: the access, not the arithmetic, is judged
          Term r = T.kind(p) == K::Null ? TNull : mv(p); if (r == 0xffffffff) { Term q = norm(s, p); if (T.kind(q) == K::Cell) { report(s, VK::OOB, "pointer arithmetic on an application variable pointer"); drop(); break; } throw Undecided{"pointer arithmetic on " + show(q) + " in " + where()}; }
          R[in.dst] = r; break; }
        case Op::Freeze: R[in.dst] = V(in.ops[0]); break;
        case Op::Cast: {
          Term x = V(in.ops[0]); if (x == TUndef) { R[in.dst] = x; break; } int w = in.width, sw = in.srcw;
          auto hasParts = [&](Term t) { return isParts(t) || (T.kind(t) == K::Ite && (isParts((Term)T.pay(t)[1]) || isParts((Term)T.pay(t)[2]))); };
          if (hasParts(x)) { Term y = (Cast)in.sub == Cast::Trunc ? extParts(x, 0, w) : (Cast)in.sub == Cast::IntToPtr ? extParts(x, 0, 64) : x; if ((Cast)in.sub != Cast::Trunc && hasParts(y)) y = wholeParts(y, sw); if (y == TUndef || hasParts(y) || (Cast)in.sub == Cast::Trunc) { R[in.dst] = y; break; } x = y; }
          switch ((Cast)in.sub) {
            case Cast::ZExt: if (sw < 32) { R[in.dst] = x; break; } { Iv v = ivl(s, x); if (v.lo >= 0) R[in.dst] = x; else if (v.hi < 0) R[in.dst] = addc(x, (i64)1 << sw); else lit(mkLe(T0, x)); } break;
            case Cast::SExt: if (sw >= 32) { R[in.dst] = x; break; } if (sw == 1) { R[in.dst] = canonW(s, mulc(x, -1), w); break; } { i64 H = (i64)1 << (sw - 1); Iv v = ivl(s, x); if (v.hi < H) R[in.dst] = x; else if (v.lo >= H) R[in.dst] = canonW(s, addc(x, -((i64)1 << sw)), w); else lit(mkLe(C(H), x)); } break;
            case Cast::Trunc: R[in.dst] = canonW(s, x, w); break;
            case Cast::Bswap: { if (w == 32) { Iv v = ivl(s, x); if (v.lo < 0) { if (v.hi >= 0) { lit(mkLe(T0, x)); break; } x = addc(x, (i64)1 << 32); } } Term y = T0; for (int i = 0; i < w; i += 8) y = add(y, mulc(mkSlice(x, i, 8), (i64)1 << (w - 8 - i))); R[in.dst] = canonW(s, y, w); break; }
            case Cast::PtrToInt: case Cast::Bit: R[in.dst] = x; break;
            case Cast::IntToPtr: if (isC(x) && cval(x) == 0) R[in.dst] = TNull; else if (isPtrK(T.kind(x))) R[in.dst] = x; else throw Undecided{"integer converted to a pointer in " + where()}; break; }
          break; }
        case Op::Bin: {
          Term a = V(in.ops[0]), b = V(in.ops[1]); if (a == TUndef || b == TUndef) { R[in.dst] = TUndef; break; } int w = in.width;
          if ((Bin)in.sub == Bin::LShr && isC(b) && (isParts(a) || (T.kind(a) == K::Ite && isParts((Term)T.pay(a)[1])))) { i64 n = cval(b), w0 = in.width; Term y = extParts(a, n, w0 - n); R[in.dst] = isParts(y) || y == TUndef ? insParts(y, w0, T0, w0 - n, n) : y; break; }
          a = wholeParts(a, w); b = wholeParts(b, w); if (a == TUndef || b == TUndef) { R[in.dst] = TUndef; break; }
          if (isPtrK(T.kind(a)) || isPtrK(T.kind(b))) { if ((Bin)in.sub == Bin::Sub && T.kind(a) == K::Ptr && T.kind(b) == K::Ptr && ptrReg(a) == ptrReg(b)) { R[in.dst] = sub(ptrOff(a), ptrOff(b)); break; } throw Undecided{"integer arithmetic on pointers in " + where()}; }
          auto nonneg = [&](Term& x) -> bool { if (w < 32) return true; Iv v = ivl(s, x); if (v.lo >= 0) return true; if (v.hi < 0 && w == 32) { x = addc(x, (i64)1 << 32); return true; } lit(mkLe(T0, x)); return false; };
          auto cst = [&](Term& x, i64 max) -> bool { Iv v = ivl(s, x); if (v.lo == v.hi) { x = C(v.lo); return true; } (void)max; enumv(norm(s, x)); return false; };
          switch ((Bin)in.sub) {
            case Bin::Add: R[in.dst] = canonW(s, add(a, b), w); break;
            case Bin::Sub: R[in.dst] = canonW(s, sub(a, b), w); break;
            case Bin::Mul: { Term x = isC(a) || isC(b) ? a : norm(s, a), y = isC(a) || isC(b) ? b : norm(s, b); R[in.dst] = canonW(s, mkMul(x, y), w); break; }
            case Bin::UDiv: case Bin::URem: if (!nonneg(a) || !nonneg(b)) break; if (!cst(b, 4096)) break; if (cval(b) == 0) { report(s, VK::Arith, "division by zero"); drop(); break; } R[in.dst] = (Bin)in.sub == Bin::UDiv ? mkDiv(a, cval(b)) : mkMod(a, cval(b)); R[in.dst] = canonW(s, R[in.dst], w); break;
            case Bin::SDiv: case Bin::SRem: { if (!cst(b, 4096)) break; if (cval(b) == 0) { report(s, VK::Arith, "division by zero"); drop(); break; } if (cval(b) < 0) throw Undecided{"signed division by a negative value in " + where()}; Iv v = ivl(s, a); if (v.lo < 0 && v.hi >= 0) { lit(mkLe(T0, a)); break; } bool neg = v.hi < 0; Term x = neg ? mulc(a, -1) : a; Term q = (Bin)in.sub == Bin::SDiv ? mkDiv(x, cval(b)) : mkMod(x, cval(b)); R[in.dst] = neg ? mulc(q, -1) : q; break; }
            case Bin::Shl: if (!cst(b, 64)) break; if (cval(b) < 0 || cval(b) >= w) { report(s, VK::Arith, "shift by " + show(b) + " of a " + std::to_string(w) + "-bit value"); drop(); break; } R[in.dst] = canonW(s, mulc(cval(b) > 30 ? mkSlice(a, 0, w - cval(b)) : a, (i64)1 << cval(b)), w); break;
            case Bin::LShr: if (!cst(b, 64) || !nonneg(a)) break; if (cval(b) < 0 || cval(b) >= w) { report(s, VK::Arith, "shift out of range"); drop(); break; } R[in.dst] = canonW(s, mkSlice(a, cval(b), 62 - cval(b)), w); break;
            case Bin::AShr: { if (!cst(b, 64)) break; if (cval(b) < 0 || cval(b) >= w) { report(s, VK::Arith, "shift out of range"); drop(); break; } if (w < 32) { R[in.dst] = mkSlice(a, cval(b), 62 - cval(b)); break; } Iv v = ivl(s, a); if (v.lo < 0 && v.hi >= 0) { lit(mkLe(T0, a)); break; } if (v.hi < 0) R[in.dst] = addc(mulc(mkSlice(addc(mulc(a, -1), -1), cval(b), 62 - cval(b)), -1), -1); else R[in.dst] = mkSlice(a, cval(b), 62 - cval(b)); break; }
            case Bin::And: if (isC(b) && cval(b) < 0 && w <= 32) b = w == 32 ? b : b; { Term x = a, y = b; if (w == 32 && isC(y) && cval(y) < 0 && tlo(x) < 0) { Iv v = ivl(s, x); if (v.lo < 0 && !(v.lo >= -((i64)1 << 31))) throw Undecided{"and"}; } R[in.dst] = canonW(s, mkAnd(x, y, w), w); } break;
            case Bin::Or: R[in.dst] = canonW(s, mkOr(a, b, w), w); break;
            case Bin::Xor: R[in.dst] = w == 1 ? mkXor(a, b, 1) : canonW(s, mkXor(a, b, w), w); break; }
          break; }
        case Op::ICmp: {
          Term a = V(in.ops[0]), b = V(in.ops[1]); if (a == TUndef || b == TUndef) { R[in.dst] = TUndef; break; } Cmp c = (Cmp)in.sub; int w = in.srcw; a = wholeParts(a, w ? w : 64); b = wholeParts(b, w ? w : 64); if (a == TUndef || b == TUndef) { R[in.dst] = TUndef; break; }
          auto pk = [&](Term t) { return isPtrK(T.kind(t)); };
          if (w == 0 || pk(a) || pk(b)) {
            if (w == 0 || (pk(a) && pk(b))) { a = norm(s, a); b = norm(s, b); if (c == Cmp::EQ) { R[in.dst] = mkPtrEq(a, b); break; } if (c == Cmp::NE) { R[in.dst] = mkNot(mkPtrEq(a, b)); break; } if (T.kind(a) == K::Ptr && T.kind(b) == K::Ptr && ptrReg(a) == ptrReg(b)) { a = ptrOff(a); b = ptrOff(b); w = 64; if (c == Cmp::UGT) c = Cmp::SGT; if (c == Cmp::UGE) c = Cmp::SGE; if (c == Cmp::ULT) c = Cmp::SLT; if (c == Cmp::ULE) c = Cmp::SLE; } else throw Undecided{"ordering of unrelated pointers in " + where()}; }
            else throw Undecided{"comparison of pointer and integer in " + where()}; }
          bool sg = c == Cmp::SGT || c == Cmp::SGE || c == Cmp::SLT || c == Cmp::SLE, us = c == Cmp::UGT || c == Cmp::UGE || c == Cmp::ULT || c == Cmp::ULE;
          if (us && w >= 32) { for (Term* x : {&a, &b}) { Iv v = ivl(s, *x); if (v.lo >= 0) continue; if (v.hi < 0) { *x = w == 32 ? addc(*x, (i64)1 << 32) : addc(*x, (i64)1 << 61); continue; } lit(mkLe(T0, *x)); break; } if (need.k) break; }
          if (sg && w < 32 && w > 1) { i64 H = (i64)1 << (w - 1); for (Term* x : {&a, &b}) { Iv v = ivl(s, *x); if (v.hi < H) continue; if (v.lo >= H) { *x = addc(*x, -2 * H); continue; } lit(mkLe(C(H), *x)); break; } if (need.k) break; }
          switch (c) { case Cmp::EQ: R[in.dst] = mkEq(a, b); break; case Cmp::NE: R[in.dst] = mkNot(mkEq(a, b)); break; case Cmp::UGT: case Cmp::SGT: R[in.dst] = mkLe(addc(b, 1), a); break; case Cmp::UGE: case Cmp::SGE: R[in.dst] = mkLe(b, a); break; case Cmp::ULT: case Cmp::SLT: R[in.dst] = mkLe(addc(a, 1), b); break; default: R[in.dst] = mkLe(a, b); }
          break; }
        case Op::Select: { Term c = V(in.ops[0]); if (!checkVal(c, "a condition")) break; int d = decide(s, c); Term a = V(in.ops[1]), b = V(in.ops[2]); if (d >= 0) { R[in.dst] = d ? a : b; break; } if (a == TUndef || b == TUndef) { lit(c); break; } R[in.dst] = mkIte(norm(s, c), a, b); break; }
        case Op::MemSet: case Op::MemCpy: {
          Term n = norm(s, V(in.ops[2])); if (!checkVal(n, "a length")) break; if (!isC(n)) { Iv v = ivl(s, n); if (v.lo == v.hi) n = C(v.lo); else { enumv(n); break; } } i64 len = cval(n); if (len == 0) break; if (len < 0) { report(s, VK::OOB, "memory block of negative length"); drop(); break; }
          if (len > 1 << 20) { report(s, VK::OOB, "memory block of " + std::to_string(len) + " bytes"); drop(); break; }
          i64 r; Term off, app; if (!resolve2(V(in.ops[0]), true, r, off, app)) break; if (app) { report(s, VK::OOB, "block write through an application pointer"); drop(); break; } if (!bounds(r, off, len, true, false)) break;
          if (in.op == Op::MemSet) { Term v = V(in.ops[1]); if (!checkVal(v, "a stored value")) break; bool ok = true; for (i64 i = 0; i < len && ok; i++) ok = doStore(r, addc(off, i), 1, v); break; }
          i64 r2; Term off2, app2; if (!resolve2(V(in.ops[1]), false, r2, off2, app2)) break; if (app2) { report(s, VK::OOB, "block read through an application pointer"); drop(); break; } if (!bounds(r2, off2, len, false, false)) break;
          RK k1 = r < nstatic ? regions[r].kind : RK::Local, k2 = r2 < nstatic ? regions[r2].kind : RK::Local;
          env->access(*this, s, r2, off2, len, false); if (k1 == RK::Table || k2 == RK::Table) throw Undecided{"block copy of a registration table in " + where()};
          if (k1 != RK::Glob && k1 != RK::Local) { doStore(r, off, 1, T0); break; } env->access(*this, s, r, off, len, true);
          std::vector<CellE> tmp; if (k2 == RK::Ext) { i64 e = regions[r2].elem; for (i64 i = 0; i < len; i++) { i64 o = cval(off2) + i; Term v = mkVar(VEXT, r2, o / e, 0, e == 1 ? 1 : 65535); tmp.push_back({v, (u8)e, (u8)(o % e), 0}); } }
          else if (k2 == RK::Drv) { for (i64 i = 0; i < len; i++) { i64 o = cval(off2) + i; Term v; doLoad(r2, C(o / 8 * 8), 8, true, v); tmp.push_back({v, 8, (u8)(o % 8), 0}); } }
          else for (i64 i = 0; i < len; i++) tmp.push_back(*cellR(s, r2, cval(off2) + i));
          for (i64 i = 0; i < len; i++) *cell(s, r, cval(off) + i) = tmp[i];
          break; }
        case Op::Call: {
          Term fp = norm(s, V(in.ops[0])); if (T.kind(fp) == K::Ite) { lit((Term)T.pay(fp)[0]); break; }
          if (T.kind(fp) == K::Null) { report(s, VK::Null, "call through a null function pointer"); drop(); break; }
          if (fp == TUndef) { checkVal(fp, "a function pointer"); break; }
          std::vector<Term> av; bool bad = false; for (size_t i = 1; i < in.ops.size(); i++) { Term a = V(in.ops[i]); av.push_back(a); }
          std::vector<Out> os; 
          if (T.kind(fp) == K::DrvFn) { for (Term a : av) if (a == TUndef) { checkVal(a, "a driver call argument"); bad = true; break; } if (bad) break; env->drv(*this, s, T.pay(fp)[0], T.pay(fp)[1], av, os); }
          else if (T.kind(fp) == K::Fn) { int g = T.pay(fp)[0]; auto& G = m.funcs[g];
            if (env->summarise(*this, s, g, av, os)) {}
            else if (G.decl) { for (Term a : av) if (a == TUndef) { checkVal(a, "an external call argument"); bad = true; break; } if (bad) break; env->ext(*this, s, g, av, os); }
            else { if ((int)av.size() != G.nargs) throw Undecided{"argument count mismatch calling " + G.name}; run(g, av, s, os); } }
          else throw Undecided{"cannot resolve call target " + show(fp) + " in " + where()};
          if (os.empty()) { need.k = 3; break; }
          for (size_t i = 1; i < os.size(); i++) { Item c; c.s = std::move(os[i].s); c.r = R; c.blk = it.blk; c.idx = it.idx + 1; c.prev = it.prev; c.loops = it.loops; if (in.dst >= 0) c.r[in.dst] = os[i].ret; push(std::move(c)); }
          it.s = std::move(os[0].s); if (in.dst >= 0) R[in.dst] = os[0].ret; break; }
        case Op::Br: case Op::CondBr: case Op::Switch: {
          int tgt = -1;
          if (in.op == Op::Br) tgt = in.succ[0];
          else if (in.op == Op::CondBr) { Term c = V(in.ops[0]); if (!checkVal(c, "a branch condition")) break; c = norm(s, c); int d = decide(s, c); if (d < 0) { if (T.kind(c) == K::Ite) { Term q = (Term)T.pay(c)[0]; if (decide(s, q) < 0) { lit(q); break; } } lit(c); break; } tgt = in.succ[d ? 0 : 1]; }
          else { Term v = V(in.ops[0]); if (!checkVal(v, "a switch value")) break; v = norm(s, v); tgt = -2; for (size_t i = 0; i < in.imm.size(); i++) { Term e = mkEq(v, C(in.imm[i])); int d = decide(s, e); if (d == 1) { tgt = in.succ[i + 1]; break; } if (d < 0) { lit(e); break; } } if (need.k) break; if (tgt == -2) tgt = in.succ[0]; }
          int o = f.blocks[tgt].order; int lp = it.loops; if (o <= f.blocks[it.blk].order) { if (++lp > loopCap) { report(s, VK::Diverge, "loop in " + f.name + " does not end within " + std::to_string(loopCap) + " iterations"); drop(); break; } }
          it.prev = it.blk; it.blk = tgt; it.idx = 0; it.loops = lp; advance = false; it.noPre = false;
          if (f.blocks[tgt].preds.size() >= 2) { push(std::move(it)); done = true; }
          else if (alive && lowest < o) { pend[o].push_back(std::move(it)); alive++; done = true; }
          break; }
        case Op::Ret: {
          Out o; o.ret = in.ops.empty() ? 0 : V(in.ops[0]); o.s = std::move(it.s); o.s.locals.resize(nloc); o.s.mem.resize(nmem); my.push_back(std::move(o)); done = true; advance = false; break; }
        case Op::Unreachable: report(s, VK::Other, "control reaches undefined behaviour (unreachable code)"); done = true; advance = false; break;
        case Op::Unsup: throw Undecided{"unsupported instruction in " + where() + ": " + in.text};
      }
      if (done) break;
      if (need.k == 3) break;
      if (need.k == 1) {
        static int rep = 0; static Term lastc = 0; if (need.t == lastc) { if (++rep == 50 && prof) fprintf(stderr, "STUCK %s [%ld,%ld] norm %s\n", show(need.t, 10).c_str(), (long)ivl(it.s, need.t).lo, (long)ivl(it.s, need.t).hi, show(norm(it.s, need.t), 10).c_str()); } else { lastc = need.t; rep = 0; }
        Term c = need.t; State t = it.s; bool a = assume(t, c, true) && env->learned(t, c), b = assume(it.s, c, false) && env->learned(it.s, c);
        if (a && b) { if (prof) forks[fid][in.line]++; Item c2; c2.s = std::move(t); c2.r = it.r; c2.blk = it.blk; c2.idx = it.idx; c2.prev = it.prev; c2.loops = it.loops; c2.noPre = it.noPre; int o = f.blocks[it.blk].order; pend[o].push_back(std::move(c2)); alive++; if (o < lowest) lowest = o; continue; }
        if (prof && rep == 50) { fprintf(stderr, "a %d b %d\n", a, b); State& w = a ? t : it.s; fprintf(stderr, "after [%ld,%ld] %s\n", (long)ivl(w, c).lo, (long)ivl(w, c).hi, show(norm(w, c)).c_str()); w.f->sub.each([&](Term k, Term v) { fprintf(stderr, "   %s = %s\n", show(k, 8).c_str(), show(v, 8).c_str()); }); w.f->iv.each([&](Term k, Fact v) { fprintf(stderr, "   %s in [%ld,%ld]\n", show(k, 8).c_str(), (long)v.lo, (long)v.hi); }); }
        if (a) { it.s = std::move(t); continue; } if (b) continue; break; }
      if (need.k == 2) {
        Term x = need.t; Iv v = ivl(it.s, x); if (v.hi - v.lo > 4096) throw Undecided{"too many values of " + show(x) + " [" + std::to_string(v.lo) + "," + std::to_string(v.hi) + "] in " + where()};
        int o = f.blocks[it.blk].order; for (i64 k = v.lo; k <= v.hi; k++) { State t = it.s; Term e = mkEq(x, C(k)); if (!assume(t, e, true)) continue; if (!assumeRange(t, x, k, k)) continue; Item c2; c2.s = std::move(t); c2.r = it.r; c2.blk = it.blk; c2.idx = it.idx; c2.prev = it.prev; c2.loops = it.loops; c2.noPre = it.noPre; pend[o].push_back(std::move(c2)); alive++; if (o < lowest) lowest = o; }
        break; }
      if (advance) { it.idx++; it.noPre = false; }
    }
  }
  stack.pop_back();
  mergeOuts(*this, my); for (auto& o : my) outs.push_back(std::move(o));
}
