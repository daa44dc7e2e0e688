#include "env.h"
#include <algorithm>
#include <cstdio>
bool cellsNonNull = false;
void Result::merge(const Result& o) { for (auto& v : o.viol) { bool dup = false; for (auto& w : viol) if (w.prop == v.prop && w.rule == v.rule && w.where == v.where) dup = true; if (!dup) viol.push_back(v); } for (auto& c : o.count) count[c.first] += c.second; for (auto& n : o.notes) if (std::find(notes.begin(), notes.end(), n) == notes.end()) notes.push_back(n); functions.insert(o.functions.begin(), o.functions.end()); if (!o.undecided.empty()) undecided += (undecided.empty() ? "" : "; ") + o.undecided; }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '\t') r += "  "; else if (c == '\n') r += " "; else r += c; } return r; }
bool Result::stream = false;
static std::string record(const Viol& v);
void Result::add(Viol v) { if (stream) { fputs(record(v).c_str(), stdout); fflush(stdout); } viol.push_back(std::move(v)); }
std::string Result::json() const {                                  // tab separated records, one per line
  std::string r; if (!stream) for (auto& v : viol) r += record(v);
  for (auto& c : count) r += "C\t" + c.first + "\t" + std::to_string(c.second) + "\n"; for (auto& n : notes) r += "N\t" + esc(n) + "\n"; for (auto& f : functions) r += "F\t" + f + "\n"; if (!undecided.empty()) r += "U\t" + esc(undecided) + "\n"; return r; }
static std::string record(const Viol& v) { return "V\t" + esc(v.prop) + "\t" + esc(v.rule) + "\t" + esc(v.where) + "\t" + esc(v.msg) + "\t" + esc(v.trace) + "\t" + esc(v.path) + "\n"; }
bool Result::parse(const std::string& t) { std::istringstream is(t); std::string line; bool end = false; while (std::getline(is, line)) { std::vector<std::string> f; size_t p = 0; while (true) { size_t q = line.find('\t', p); f.push_back(line.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } if (f[0] == "V" && f.size() >= 7) viol.push_back({f[1], f[2], f[3], f[4], f[5], f[6]}); else if (f[0] == "C") count[f[1]] += std::stoull(f[2]); else if (f[0] == "N") notes.push_back(f[1]); else if (f[0] == "F") functions.insert(f[1]); else if (f[0] == "U") undecided = f[1]; else if (f[0] == "E") end = true; } return end; }

BaseEnv::BaseEnv(Interp& i, Result& r) : I(i), R(r) {
  I.env = this; const char* names[2] = {"slave driver interface", "master driver interface"};
  for (int k = 0; k < 2; k++) { int id = I.addExtRegion(names[k], C(64), 1, RK::Drv); I.regions[id].side = k; I.regions[id].size = 64; drvRegion[k] = id; }
  if (auto* f = I.m.fn("calculate_CRC")) crcFn = f->id;
}
void BaseEnv::viol(const State& s, const std::string& prop, const std::string& rule, const std::string& msg) {
  std::string w = I.where(); std::string key = prop + "|" + rule + "|" + w; { auto& m = reV[prop + "|" + rule]; if (!afterReinit(s)) m.fresh = true; else if (!m.re) { m.re = true; std::string pp; for (auto& e : path) pp += (pp.empty() ? "" : " > ") + e; m.v = {prop, rule, w, msg, I.trace(), pp}; } }
  if (!seen.insert(key).second) return;
  if (I.prof) { fprintf(stderr, "VIOL %s %s\n", rule.c_str(), msg.c_str()); { std::string pp; for (auto& e : path) pp += e + " > "; fprintf(stderr, "  path %s\n  ghost", pp.c_str()); for (int i = 0; i < NG; i++) if (s.g[i]) fprintf(stderr, " g%d=%ld", i, (long)s.g[i]); fprintf(stderr, "\n"); for (int r = 0; r < I.nstatic; r++) { auto& R = I.regions[r]; if (R.kind != RK::Glob || R.bytes || R.chunk0 < 0) continue; std::string x; for (i64 o = 0; o < R.size; o++) { const CellE* c = I.cellR(s, r, o); if (c->size && c->pos == 0 && c->t != T0) x += " +" + std::to_string(o) + ":" + show(c->t, 3); } if (!x.empty()) fprintf(stderr, "  %d %s%s\n", r, R.name.c_str(), x.c_str()); } } for (auto* c = s.chain; c; c = c->parent) fprintf(stderr, "   lit %s%s\n", c->val ? "" : "not ", show(c->lit, 8).c_str()); s.f->sub.each([&](Term k, Term v) { fprintf(stderr, "   %s = %s\n", show(k, 8).c_str(), show(v, 8).c_str()); }); s.f->iv.each([&](Term k, Fact v) { Iv j = ivl(s, k); fprintf(stderr, "   %s in [%ld,%ld] %ld %ld\n", show(k, 8).c_str(), (long)v.lo, (long)v.hi, (long)j.lo, (long)j.hi); }); }
  std::string p; for (auto& e : path) p += (p.empty() ? "" : " > ") + e; if (s.g[GPEV]) p += " (" + preName(s.g[GPEV] / 1000000 - 1) + " during the poll, at line " + std::to_string(s.g[GPEV] % 1000000) + ")"; R.add({prop, rule, w, msg, I.trace(), p + (I.cond(s).empty() ? "" : " | when " + I.cond(s))});
}
void BaseEnv::reportReinit() { for (auto& e : reV) { auto& m = e.second; if (!m.re || m.fresh || m.v.prop == "C26") continue; R.add({"C26", "initialisation is complete", m.v.where, "only after a repeated initialisation: " + m.v.msg, m.v.trace, m.v.path}); } }
void BaseEnv::violation(Interp&, const State& s, VK k, const std::string& msg) {
  switch (k) {
    case VK::Diverge: viol(s, "C25", "every call returns", msg); break; case VK::Recursion: viol(s, "C25", "no recursion", msg); break;
    default: viol(s, memProp, "memory safety", msg); }
}
std::vector<Out> BaseEnv::callFn(const std::string& name, const std::vector<Term>& args, const State& s) { auto* f = I.m.fn(name); if (!f || f->decl) throw Undecided{"entry point " + name + " not found"}; std::vector<Out> o; I.run(f->id, args, s, o); return o; }
std::vector<Out> BaseEnv::callTerm(Term fn, const std::vector<Term>& args, const State& s) { std::vector<Out> o; if (T.kind(fn) != K::Fn) throw Undecided{"notification is not a function: " + show(fn)}; int g = T.pay(fn)[0]; if (I.m.funcs[g].decl) throw Undecided{"notification has no body"}; I.run(g, args, s, o); return o; }
Term BaseEnv::load(State& s, Term ptr, i64 off, int size, bool isPtr) {
  ptr = norm(s, ptr); if (T.kind(ptr) != K::Ptr) return TUndef; Term o = norm(s, addc(ptrOff(ptr), off)); if (!isC(o)) { Iv v = ivl(s, o); if (v.lo != v.hi) return TUndef; o = C(v.lo); }
  i64 r = ptrReg(ptr), c = cval(o); if (c < 0 || c + size > I.regSize(s, r)) return TUndef; if (r < I.nstatic) { RK k = I.regions[r].kind; if (k != RK::Glob && k != RK::Const) return TUndef; }
  return I.loadC(s, r, c, size, isPtr); }
bool BaseEnv::store(State& s, Term ptr, i64 off, int size, Term v) { ptr = norm(s, ptr); if (T.kind(ptr) != K::Ptr) return false; Term o = norm(s, addc(ptrOff(ptr), off)); if (!isC(o)) return false; i64 r = ptrReg(ptr), c = cval(o); if (c < 0 || c + size > I.regSize(s, r)) return false; if (r < I.nstatic && I.regions[r].kind != RK::Glob) return false; I.storeC(s, r, c, size, v); return true; }
void BaseEnv::ext(Interp&, State& s, int fid, const std::vector<Term>& args, std::vector<Out>& outs) {
  const std::string& n = I.m.funcs[fid].name;
  if (n == "get_slave_RTU_driver_interface") { outs.push_back({s, mkPtr(drvRegion[0], T0)}); return; }
  if (n == "get_master_RTU_driver_interface") { outs.push_back({s, mkPtr(drvRegion[1], T0)}); return; }
  if (appCall(s, n, args, outs)) return;
  viol(s, "C25", "only driver and application functions are called", "call to external function " + n); outs.push_back({s, mkFresh(-((i64)1 << 31), ((i64)1 << 31) - 1)});
}
// does the buffer at this place hold exactly the bytes of the received frame?
bool BaseEnv::frameAt(State& s, i64 r, i64 base) {
  if (!frameT) return false; u32 n = T.plen(frameT); if (base < 0 || base + (i64)n > I.regSize(s, r)) return false;
  for (u32 i = 0; i < n; i++) { const CellE* c = I.cellR(s, r, base + i); if (c->size != 1 || c->t != (Term)T.pay(frameT)[i]) return false; } return true; }
// one of the last two bytes of a frame of any length
bool BaseEnv::symLoad(State& s, i64 r, Term off, Term& out) {
  if (!frameT || r >= I.nstatic || !I.regions[r].bytes) return false; Term d = norm(s, sub(off, frameLen)); if (!isC(d)) return false;
  for (i64 k : {1, 2}) { i64 base = cval(d) + k; if (base >= 0 && frameAt(s, r, base)) { out = mkSel(frameT, addc(frameLen, -k)); count("trailing checksum bytes read"); return true; } } return false; }
bool BaseEnv::hasCrc(Term t) { if (t >= crcMemo.size()) crcMemo.resize(t + 1024, 0); if (!crcMemo[t]) { std::vector<Term> at; collectAtoms(t, at); u8 r = 1; for (Term a : at) if (T.kind(a) == K::Crc) r = 2; crcMemo[t] = r; } return crcMemo[t] == 2; }
// the two bytes of the checksum were compared one by one: what follows for the checksum of the whole frame
bool BaseEnv::learned(State& s, Term c) {
  if (!frameT || !hasCrc(c)) return true; Iv v = ivl(s, frameLen); Term w = mkEq(mkCrc(1, frameT, 0, frameLen), T0); bool yes = proven(s, w), no = !yes && proven(s, mkNot(w)); if (yes) return true;
  for (i64 n : {(i64)-1, v.lo == v.hi ? v.lo : -1}) for (bool want : {true, false}) if (crcPairIs(s, want, n)) return no ? !want : assume(s, w, want, false);
  return true; }
bool BaseEnv::summarise(Interp&, State& s, int fid, const std::vector<Term>& args, std::vector<Out>& outs) {
  if (fid != crcFn || args.size() != 2) return false;
  // checksum routine: its value is named after the bytes it covers (C10 shows separately that it computes CRC-16/MODBUS)
  Term p = norm(s, args[0]), n = norm(s, args[1]); if (T.kind(p) != K::Ptr) { if (T.kind(p) == K::Null) { I.report(s, VK::Null, "checksum over a null buffer"); return true; } throw Undecided{"checksum buffer " + show(p)}; }
  Term off = norm(s, ptrOff(p)); i64 r = ptrReg(p); Iv v = ivl(s, n); if (!isC(off)) throw Undecided{"checksum at symbolic offset"}; i64 sz = I.regSize(s, r) - cval(off);
  if (r < I.nstatic && I.regions[r].kind != RK::Glob && I.regions[r].kind != RK::Const) return false;
  // rows of a two-dimensional buffer: the checksum must stay inside one row
  i64 lim = sz; if (r < I.nstatic && I.regions[r].glob >= 0 && I.m.globals[I.regions[r].glob].ptrRows) { auto& g = I.m.globals[I.regions[r].glob]; i64 row = g.size / g.elems; lim = row - cval(off) % row; }
  Term ok = mkLe(n, C(lim)), lo = mkLe(T0, n); if (!proven(s, lo) || !proven(s, ok)) { I.report(s, VK::OOB, "checksum over " + show(n) + " bytes of a buffer with " + std::to_string(lim) + " bytes left"); if (!assume(s, ok, true) || !assume(s, lo, true)) return true; v = ivl(s, n); }
  access(I, s, r, off, v.hi, false);
  std::vector<Term> by; i64 cnt = v.lo == v.hi ? v.lo : std::min<i64>(lim, thi(n));   // bytes up to the static bound of the length
  for (i64 i = 0; i < cnt; i++) { Term b = I.loadC(s, r, cval(off) + i, 1); if (b == TUndef && v.lo == v.hi) { I.report(s, VK::Uninit, "checksum over uninitialised bytes of " + I.regName(s, r)); return true; } by.push_back(b); }
  if (v.lo != v.hi) { for (i64 i = 0; i < v.hi; i++) if (by[i] == TUndef) { I.report(s, VK::Uninit, "checksum over uninitialised bytes of " + I.regName(s, r)); return true; } }
  if (v.lo == v.hi) { bool all = true; u32 c = 0xFFFF; for (Term b : by) { b = norm(s, b); if (!isC(b)) { all = false; break; } c ^= (u32)cval(b) & 255; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xA001 : c >> 1; } if (all) { outs.push_back({s, C(c)}); count("checksum computations"); return true; } }
  if (v.lo != v.hi && frameAt(s, r, cval(off))) { Term d = sub(n, frameLen); if (isC(d)) { outs.push_back({s, mkCrc(1, frameT, 0, n)}); count("checksum computations"); return true; } }
  Term c = v.lo == v.hi ? mkCrc(0, mkTuple(by), 0, 0) : mkCrc(1, mkTuple(by), 0, n); outs.push_back({s, c}); count("checksum computations"); return true; }

bool onlyLive(Term t, const LiveSet& live) {
  if (T.kind(t) == K::Var) return live.count(t);
  K k = T.kind(t); if (k == K::Const || k == K::Null || k == K::Fn || k == K::DrvFn) return true;
  if (k == K::Ptr) return onlyLive(ptrOff(t), live);
  if (k == K::Crc) { if (live.count(t)) return true; const i64* p = T.pay(t); Term tup = p[0] == 0 ? (Term)p[1] : (Term)p[1]; Term ln = p[0] >= 1 ? (Term)p[3] : T0; static std::unordered_map<u64, bool> dummy; u32 n = T.plen(tup); for (u32 i = 0; i < n; i++) { Term x = (Term)T.pay(tup)[i]; if (!onlyLive(x, live)) return false; } return onlyLive(ln, live); }
  std::vector<Term> at; collectAtoms(t, at); if (at.empty()) return true; for (Term a : at) { if (live.count(a)) continue; if (T.kind(a) == K::Crc) { if (!onlyLive(a, live)) return false; continue; } if (T.kind(a) == K::Opq) continue; return false; } return true; }
// a block of a frame buffer in which every byte either does not matter or says nothing about forgotten symbols: facts play no role, results are shared
bool BaseEnv::canonBlock(CP& cp, int r, i64 o, u32 mask, const LiveSet& live, u64 sig, u64& key) {
  u64 h = ((u64)cp.p * 31 + mask) * 0x9E3779B97F4A7C15ull ^ sig ^ ((u64)r << 32 | o); auto& v = chunkMemo[h]; for (auto& m : v) if (m.in.p == cp.p) { cp = m.out; key = m.key; return true; }
  CP out(new Chunk); for (int i = 0; i < CH; i++) { const CellE& e = cp->e[i]; if (e.size == 0) { out.p->e[i] = CellE{}; continue; } if (e.size != 1 || e.t == TUndef || T.kind(e.t) == K::Ptr || T.kind(e.t) == K::Null || T.kind(e.t) == K::Fn) return false; if (mask >> i & 1 && T.kind(e.t) == K::Const) { out.p->e[i] = e; continue; } if (mask >> i & 1 && onlyLive(e.t, live)) { out.p->e[i] = e; continue; } if (mask >> i & 1 && T.kind(e.t) != K::Var) return false; out.p->e[i] = CellE{mkVar(VTOP, r, o + i, 0, 255), 1, 0, 0}; }
  u64 c = 1469598103934665603ull; for (int i = 0; i < CH; i++) c = (c ^ ((u64)out->e[i].t * 4 + out->e[i].size)) * 0x9E3779B97F4A7C15ull ^ (c >> 29); auto& pool = chunkPool[c]; bool found = false; for (auto& q : pool) { bool eq = true; for (int i = 0; i < CH && eq; i++) eq = q->e[i] == out->e[i]; if (eq) { out = q; found = true; break; } } if (!found) pool.push_back(out);
  if (v.size() > 64) v.clear(); v.push_back({cp, out, c}); cp = out; key = c; return true; }
// a block of other variables that holds only plain constants and pointers: nothing to normalise
const BaseEnv::PlainMemo& BaseEnv::plainBlock(const CP& c, int r, i64 o) {
  u64 mk = (u64)c.p * 0x9E3779B97F4A7C15ull ^ ((u64)r << 40 | (u64)o); auto it = plainMemo.find(mk); if (it != plainMemo.end() && it->second.c.p == c.p) return it->second; if (plainMemo.size() > 200000) plainMemo.clear();
  bool ok = true; u64 h = 99; std::vector<Term> tops; for (int i = 0; i < CH && ok; i++) { const CellE& e = c->e[i]; h = (h ^ (e.size ? (u64)e.t * 16 + e.size : 0)) * 0x9E3779B97F4A7C15ull ^ (h >> 29); if (e.size == 0) continue; int st = i - e.pos; if (st < 0 || st + e.size > CH || c->e[st].t != e.t || c->e[st].size != e.size || c->e[st].pos != 0) { ok = false; break; } if (e.pos && (c->e[i - 1].t != e.t || c->e[i - 1].pos != e.pos - 1)) ok = false; if (i + 1 < CH && e.pos + 1 < e.size && (c->e[i + 1].t != e.t || c->e[i + 1].pos != e.pos + 1)) ok = false;
    K k = T.kind(e.t); if (k == K::Const || k == K::Null || k == K::Fn || k == K::DrvFn) continue; if (k == K::Var && T.pay(e.t)[0] == VTOP && T.pay(e.t)[1] == r && T.pay(e.t)[2] == o + st) { if (e.pos == 0) tops.push_back(e.t); continue; } if (k == K::Ptr && isC(ptrOff(e.t)) && ptrReg(e.t) < I.nstatic && I.regions[ptrReg(e.t)].kind != RK::Ext) continue; ok = false; }
  return plainMemo[mk] = PlainMemo{c, ok, h, tops}; }
void BaseEnv::canonical(State& s, const LiveSet& live, const std::vector<LiveRange>& ranges, std::vector<u64>& key, const char* sideProp) {
  s.chain = nullptr; u64 sig = (u64)live.marks; for (Term x : live.v) sig = (sig ^ x) * 0x9E3779B97F4A7C15ull + 77; auto liveCell = [&](int r, i64 o) { if (!I.regions[r].bytes) return true; for (auto& g : ranges) if (g.r == r && o >= g.lo && o < g.hi) return true; return false; };
  for (int r = 0; r < I.nstatic; r++) { auto& R = I.regions[r]; if (R.kind != RK::Glob || R.chunk0 < 0) continue;
    for (i64 o = 0; o < R.size;) {
      if (R.bytes && o % CH == 0 && o + CH <= R.size) {             // a block of a frame buffer without anything of interest: contents are dropped as a whole
        CP& cp = s.mem[R.chunk0 + o / CH]; u32 mask = 0; for (auto& g : ranges) if (g.r == r && o < g.hi && o + CH > g.lo) for (int i = 0; i < CH; i++) if (o + i >= g.lo && o + i < g.hi) mask |= 1u << i;
        if (mask) { u64 k; if (canonBlock(cp, r, o, mask, live, sig, k)) { key.push_back(((u64)r << 40) | ((u64)o << 8) | 254); key.push_back(k); o += CH; continue; } }
        auto& tc = topChunk[{r, (int)o}]; bool dead = !mask;
        if (dead && tc && tc.p == cp.p) { key.push_back(((u64)r << 40) | ((u64)o << 8) | 255); o += CH; continue; }
        if (dead) { for (int i = 0; i < CH && dead; i++) { const CellE& e = cp->e[i]; dead = e.size && e.t != TUndef && T.kind(e.t) != K::Ptr; } }
        if (dead) { if (!tc) { tc = CP(new Chunk); for (int i = 0; i < CH; i++) tc.p->e[i] = CellE{mkVar(VTOP, r, o + i, 0, 255), 1, 0, 0}; } cp = tc; key.push_back(((u64)r << 40) | ((u64)o << 8) | 255); o += CH; continue; } }
      if (!R.bytes && o % CH == 0 && !canonSpecial(r, o, o + CH)) { auto& pm = plainBlock(s.mem[R.chunk0 + o / CH], r, o); if (pm.ok(s)) { key.push_back(((u64)r << 40) | ((u64)o << 8) | 253); key.push_back(pm.key); o += CH; continue; } }
      const CellE* c = I.cellR(s, r, o); int size = c->size ? c->size : 1; bool whole = c->pos == 0; for (int i = 1; i < size && whole; i++) { if (o + i >= R.size) { whole = false; break; } const CellE* d = I.cellR(s, r, o + i); whole = d->size == size && d->pos == i && d->t == c->t; }
      if (!whole) size = 1;
      Term t = whole ? c->t : (c->size == 0 || c->t == TUndef ? TUndef : mkSlice(c->t, 8 * c->pos, 8)); Term n = t;
      if (c->size == 0) { o++; continue; }
      if (t != TUndef && !(R.bytes && liveCell(r, o) && onlyLive(t, live))) { n = norm(s, t); if (T.kind(n) != K::Const && T.kind(n) != K::Ptr && T.kind(n) != K::Null && T.kind(n) != K::Fn) { Iv v = ivl(s, n); if (v.lo == v.hi && T.kind(n) != K::Ptr && T.kind(n) != K::Ite && T.kind(n) != K::Cell) n = C(v.lo); } }
      n = canonCell(s, r, o, size, n);
      if (T.kind(n) == K::Ptr && ptrReg(n) >= I.nstatic) { viol(s, sideProp, "no reference to a dead object is kept", "global " + R.name + " keeps a pointer to a local variable after the call returned"); n = TNull; }
      if (T.kind(n) == K::Ptr && ptrReg(n) < I.nstatic && I.regions[ptrReg(n)].kind == RK::Ext) { viol(s, "C29", "no reference to the caller's array is kept", "global " + R.name + " keeps a pointer into the caller's data after the call returned"); n = TNull; }
      bool lc = liveCell(r, o); bool isptr = T.kind(n) == K::Ptr || T.kind(n) == K::Null || T.kind(n) == K::Fn || T.kind(n) == K::DrvFn;
      i64 lo = size == 4 ? -((i64)1 << 31) : 0, hi = size == 4 ? ((i64)1 << 31) - 1 : size == 8 ? INF : ((i64)1 << (8 * size)) - 1; if (size == 8) lo = -INF;
      if (!isptr) {
        if (T.kind(n) == K::Const) { if (R.bytes && !lc) n = mkVar(VTOP, r, o, 0, 255); else if (!R.bytes && !lc) { auto& cs = constSeen[{r, (int)o}]; cs.insert(cval(n)); if (cs.size() > 8) n = mkVar(VTOP, r, o, lo, hi); } }
        else if (T.kind(n) == K::Var && T.pay(n)[0] == 6) {}              // bounded timer value
        else if (lc && onlyLive(n, live)) {}
        else if (T.kind(n) == K::Ite && false) {}
        else if (!lc || !onlyLive(n, live)) { if (T.kind(n) == K::Ite || T.kind(n) == K::Cell) { std::vector<Term> at; bool hasPtr = false; std::function<void(Term)> w = [&](Term q) { K k = T.kind(q); if (k == K::Ite) { w((Term)T.pay(q)[1]); w((Term)T.pay(q)[2]); } else if (k == K::Ptr || k == K::Null || k == K::Fn || k == K::Cell) hasPtr = true; }; w(n); if (hasPtr) throw Undecided{"undetermined pointer kept in global " + R.name}; }
          n = mkVar(VTOP, r, o, lo, hi); } }
      if (n != t || !whole) { if (n == TUndef) { } for (int i = 0; i < size; i++) *I.cell(s, r, o + i) = CellE{n, (u8)size, (u8)i, 0}; }
      key.push_back(((u64)r << 40) | ((u64)o << 8) | size); key.push_back(n); o += size; } }
  // facts about live atoms
  Facts f(new FactTab); std::vector<std::array<i64, 5>> fk;
  s.f->sub.each([&](Term k, const Term& v) { if (onlyLive(k, live) && onlyLive(v, live)) { (*f).sub.put(k, v); (*f).subBloom |= T.nodes[k].bloom; fk.push_back({1, k, v, 0, 0}); } });
  s.f->iv.each([&](Term k, const Fact& v) { if (s.f->sub.get(k)) return; if (T.kind(k) == K::Ind && v.lo == v.hi) return; if (v.lo <= tlo(k) && v.hi >= thi(k) && !v.ex) return; if (onlyLive(k, live)) { (*f).iv.put(k, v); if (T.kind(k) == K::Lin) (*f).multi.push_back(k); fk.push_back({2, k, v.lo, v.hi, v.ex}); } });
  std::sort(fk.begin(), fk.end()); std::sort((*f).multi.begin(), (*f).multi.end()); for (auto& e : fk) for (i64 x : e) key.push_back(x);
  s.f = f; for (int i = 0; i < NG; i++) key.push_back(s.g[i]); key.push_back((u64)s.log);
  s.chain = nullptr;
}
