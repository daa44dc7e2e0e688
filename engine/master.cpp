// Master analyses: exploration of requests, transmissions, responses, ticks and noise against the request life cycle.
#include "checks.h"
#include <algorithm>
namespace {
enum { GTX, G15, G35, GFE, GREQ, GDRVI, GINIT, GCB, GPOLL, GPRE, GRX, GTXS, GORIG, GFES, GPEEK, GSENT, GOUTC, GDEL, GHEAD, GOUT, GREF, GEARLY, GRE, GTXP, GTXL, GCALL, GOFF, GNEST, GTIMED, GRST, GK, GB = GK + 8 };
static_assert(GB + 8 < NG, "ghost slots");
enum Rx { R_QUIET, R_RX, R_S, R_D };
enum Orig { O_NONE, O_CLEAN, O_DIRTY, O_STALE };
enum OutC { C_NONE, C_DATA, C_CONF, C_EXC, C_ERR, C_TMO };
const char* rxName[] = {"no frame has arrived", "a frame is still arriving", "only the 1.5 char silence was reported", "frame complete"};
const char* outName[] = {"nothing", "data", "a write confirmation", "an exception report", "a communication error report", "a timeout report"};
enum Ev { E_RX, E_NOISE, E_T15, E_T35, E_FE, E_TXD, E_POLL, E_TICK, E_REINIT, E_REQ, E_REQ2, E_BAD };
const char* evName[] = {"response bytes arrive", "stray bytes arrive", "T1.5 notification", "T3.5 notification", "frame-error notification", "tx-done notification", "poll", "timer tick", "init again", "request call", "second request call", "refused request call"};
const i64 LOGD = 2;
const char* apiName(int fc) { switch (fc) { case 1: return "modbus_master_read_coils"; case 2: return "modbus_master_read_discrete_inputs"; case 3: return "modbus_master_read_holding_reg"; case 4: return "modbus_master_read_input_reg"; case 5: return "modbus_master_write_single_coil"; case 6: return "modbus_master_write_single_reg"; case 15: return "modbus_master_write_multiple_coils"; default: return "modbus_master_write_multiple_reg"; } }
i64 qmax(int fc) { switch (fc) { case 1: case 2: return 2000; case 3: case 4: return 125; case 15: return 1968; default: return 123; } }

struct MasterEnv : BaseEnv {
  MasterCfg cfg; int NS; Term A[8], Q[8], S[8], V[8], Bv[8], F[256], L, frameTup, baud, par; int regArr[8], coilArr[8];
  std::set<std::pair<int, i64>> flagCells, timerCells, reqCells, descs, readBytes; std::set<int> reportRegions; int rec = 0; bool absTimer = true; std::map<std::pair<int, i64>, std::set<i64>> timSeen; std::vector<i64> consts; int fcMain = 6;
  MasterEnv(Interp& i, Result& r, MasterCfg c) : BaseEnv(i, r), cfg(c) {
    memProp = "C16"; NS = c.queue; if (NS > 8) throw Undecided{"more than 8 message buffers configured"};
    for (int k = 0; k < 8; k++) { std::string n = "#" + std::to_string(k); A[k] = mkSym("address" + n, 0, 65535); Q[k] = mkSym("quantity" + n, 0, 65535); S[k] = mkSym("slave" + n, 0, 255); V[k] = mkSym("value" + n, 0, 65535); Bv[k] = mkSym("coil" + n, 0, 1); regArr[k] = I.addExtRegion("caller's register array" + n, Q[k], 2); coilArr[k] = I.addExtRegion("caller's coil array" + n, Q[k], 1); }
    L = mkSym("response length", 0, 255); for (int k = 0; k < 256; k++) F[k] = mkSym("resp[" + std::to_string(k) + "]", 0, 255); frameTup = mkTuple(std::vector<Term>(F, F + 255)); frameT = frameTup; frameLen = L; markFrame(); baud = mkSym("baud", 0, ((i64)1 << 31) - 1); par = mkSym("parity", 0, 2);
    std::set<i64> cs; for (auto& f : I.m.funcs) for (auto& b : f.blocks) for (auto& in : b.insts) for (auto& o : in.ops) if (o.k == Opnd::Const && o.v > 1) cs.insert(o.v); cs.insert(1); consts.assign(cs.begin(), cs.end()); }
  int slot(const State& s, int j) { return (s.g[GHEAD] + j) % NS; }
  int cur(const State& s) { return s.g[GHEAD]; }
  int fcOf(const State& s, int k) { return s.g[GK + k]; }
  std::string reqText(int fc) { return "function code " + std::to_string(fc); }
  Term qtyField(int fc, int k) { return fc == 5 ? mulc(Bv[k], 0xFF00) : fc == 6 ? V[k] : Q[k]; }
  // ---- memory rules
  void violation(Interp& i, const State& s, VK k, const std::string& msg) override { if (k == VK::WriteConst && msg.find("caller") != std::string::npos) { viol(s, "C29", "the caller's array is not modified", msg); return; } BaseEnv::violation(i, s, k, msg); }
  void access(Interp&, State& s, i64 r, Term off, i64 size, bool write) override {
    if (r >= I.nstatic) return; auto& g = I.regions[r];
    if (rec == 1 && g.kind == RK::Glob && isC(off)) for (i64 i = 0; i < size; i++) flagCells.insert({(int)r, cval(off) + i});
    if (rec == 2 && g.kind == RK::Glob && isC(off)) timerCells.insert({(int)r, cval(off)});
    if (s.g[GCALL] && g.kind == RK::Glob && !g.bytes && isC(off)) for (i64 i = 0; i < size; i++) reqCells.insert({(int)r, cval(off) + i});
    if (g.bytes && !write && s.g[GRX] == R_RX && !s.g[GCB] && !s.g[GPEEK] && s.g[GREQ]) { Term d = load(s, (Term)s.g[GREQ], 0, 8, true); if (T.kind(d) == K::Ptr && ptrReg(d) == r && isC(ptrOff(d)) && (!isC(off) || (cval(off) + size > cval(ptrOff(d)) && cval(off) < cval(ptrOff(d)) + 256))) s.g[GPEEK] = 1; }
    if (s.g[GCB]) {
      for (auto& d : descs) if (d.first == r && (!isC(off) || (cval(off) + size > d.second && cval(off) < d.second + 9))) viol(s, "C22", "notifications only signal", "a notification or the timer tick accesses the frame descriptor (buffer pointer or length) in " + g.name);
      if (g.bytes || g.kind == RK::Ext || g.kind == RK::Drv) viol(s, "C22", "notifications only signal", "a notification or the timer tick accesses " + g.name);
      else if (g.kind == RK::Glob && isC(off)) { if (reqCells.count({(int)r, cval(off)})) viol(s, "C22", "notifications only signal", "a notification or the timer tick accesses " + g.name + ", which request calls use outside interrupt context"); const CellE* c = I.cellR(s, r, cval(off)); if (c->size && T.kind(c->t) == K::Ptr) { i64 q = ptrReg(c->t); if (q < I.nstatic && I.regions[q].kind != RK::Drv) viol(s, "C22", "notifications only signal", "a notification or the timer tick follows the data pointer in " + g.name); } } }
    if (write && s.g[GTXS] && T.kind((Term)s.g[GTXP]) == K::Ptr && ptrReg((Term)s.g[GTXP]) == r && isC(off)) { i64 b = cval(ptrOff((Term)s.g[GTXP])); if (cval(off) + size > b && cval(off) < b + s.g[GTXL]) viol(s, "C14", "a frame is not changed while it is transmitted", "byte " + std::to_string(cval(off) - b) + " of the frame is modified before its transmission completed"); } }
  bool preempt(Interp&, State& s, i64 r, i64 off, i64, bool, std::vector<State>& alts) override {
    if (!s.g[GPOLL] || s.g[GCB] || s.g[GPRE] >= cfg.pre) return false; bool fl = flagCells.count({(int)r, off}), tm = timerCells.count({(int)r, off}) && cfg.tickPre; if (!fl && !tm) return false;
    if (fl) for (int e : enabled(s)) { State t = s; t.g[GPRE]++; t.g[GPEV] = (e + 1) * 1000000 + I.here().line; for (auto& o : notify(t, e)) alts.push_back(std::move(o.s)); }
    if (tm) { State t = s; t.g[GPRE]++; t.g[GPEV] = (E_TICK + 1) * 1000000 + I.here().line; for (auto& o : tick(t)) alts.push_back(std::move(o.s)); }
    count("preemption points"); return !alts.empty(); }
  std::string preName(int e) override { return evName[e]; } bool afterReinit(const State& s) override { return cfg.markRe && s.g[GRE]; }
  std::vector<int> enabled(const State& s) { std::vector<int> r; if (s.g[GTXS]) r.push_back(E_TXD); if (s.g[GRX] == R_RX) { r.push_back(E_T15); r.push_back(E_FE); } if (s.g[GRX] == R_S) { r.push_back(E_T35); r.push_back(E_FE); } return r; }
  // control variables whose value depends on the frame: one state per value
  std::vector<State> splitControl(State s0, const LiveSet* live = nullptr) {
    std::vector<State> r; splitFrom(std::move(s0), live, 0, 0, r); return r; }
  void splitFrom(State s, const LiveSet* live, int g0, i64 o0, std::vector<State>& out) {
    for (int g = g0; g < I.nstatic; g++, o0 = 0) { auto& R = I.regions[g]; if (R.kind != RK::Glob || R.chunk0 < 0 || R.bytes || reportRegions.count(g)) continue;
      for (i64 o = o0; o < R.size; o++) { if (o % CH == 0 && plainBlock(s.mem[R.chunk0 + o / CH], g, o).ok(s)) { o += CH - 1; continue; } const CellE* c = I.cellR(s, g, o); if (!c->size || c->pos || isC(c->t) || c->t == TUndef) continue; K k = T.kind(c->t); if (k == K::Ptr || k == K::Null || k == K::Fn || k == K::DrvFn || (k == K::Var && T.pay(c->t)[0] == VTOP)) continue;
        Term v = norm(s, c->t); if ((T.kind(v) == K::Var && T.pay(v)[0] == VTOP) || (live && onlyLive(v, *live))) continue; Iv i = ivl(s, v); if (i.lo == i.hi || i.hi - i.lo > 7) continue; int size = c->size;
        for (i64 x = i.lo; x <= i.hi; x++) { State u = s; if (!assume(u, mkEq(v, C(x)), true)) continue; for (int b = 0; b < size; b++) *I.cell(u, g, o + b) = CellE{C(x), (u8)size, (u8)b, 0}; splitFrom(std::move(u), live, g, o + size, out); } return; } }
    out.push_back(std::move(s)); }
  std::vector<Out> notify(State s, int e) {
    if (e == E_FE) { auto v = splitControl(s); std::vector<Out> r; for (auto& t : v) for (auto& o : notify1(t, e)) r.push_back(std::move(o)); return r; } return notify1(std::move(s), e); }
  std::vector<Out> notify1(State s, int e) {
    Term fn = (Term)s.g[e == E_T15 ? G15 : e == E_T35 ? G35 : e == E_FE ? GFE : GTX];
    switch (e) { case E_T15: s.g[GRX] = R_S; break; case E_T35: s.g[GRX] = R_D; break; case E_FE: s.g[GFES] = 1; s.g[GRX] = R_RX; refill(s); break; case E_TXD: s.g[GTXS] = 0; break; }
    if (!fn) return {{s, 0}}; s.g[GCB]++; auto o = callTerm(fn, {}, s); for (auto& x : o) { x.s.g[GCB]--; undone(s, x.s, e == E_T15 ? G15 : e == E_T35 ? G35 : e == E_FE ? GFE : GTX); } count("notifications analysed"); return o; }
  void undone(const State& b, State& a, int ev) { std::string w; if (takesBack(I, b, a, ev, G15, G35, w)) viol(a, "C22", "notifications only signal", "a notification or the timer tick takes back what another notification has recorded in " + w); }
  std::vector<Out> tick(State s) { s.g[GCB]++; auto o = callFn("update_modbus_master_timout_timer", {}, s); for (auto& x : o) { x.s.g[GCB]--; undone(s, x.s, -1); } count("timer ticks analysed"); return o; }
  // ---- driver
  void drv(Interp&, State& s, int side, int sl, const std::vector<Term>& a, std::vector<Out>& outs) override {
    if (side != 1) viol(s, "C24", "own driver interface", "master code calls the slave's driver interface");
    if (s.g[GCB]) viol(s, "C22", "notifications only signal", "a notification or the timer tick calls the driver");
    if (s.g[GCALL]) viol(s, "C29", "request calls only queue", "a request call uses the driver");
    switch (sl) {
      case S_INIT: s.g[GDRVI]++; if (!provenEq(s, a[0], baud) || !provenEq(s, a[1], par)) viol(s, "C26", "driver gets the configured line parameters", "driver init called with baud " + show(norm(s, a[0])) + ", parity " + show(norm(s, a[1]))); if (s.g[GDRVI] > 1 || !s.g[GINIT]) viol(s, "C26", "driver initialised once", "driver init called again"); break;
      case S_SUBTX: s.g[GTX] = norm(s, a[0]); break; case S_SUB15: s.g[G15] = norm(s, a[0]); break; case S_SUB35: s.g[G35] = norm(s, a[0]); break; case S_SUBFE: s.g[GFE] = norm(s, a[0]); break;
      case S_ENABLE: {
        if (!s.g[GTX] || !s.g[G15] || !s.g[G35] || !s.g[GFE] || !s.g[GDRVI]) viol(s, "C26", "reception enabled only when ready", "reception is enabled before the driver is initialised and all four notifications are subscribed");
        Term p = norm(s, a[0]); if (T.kind(p) != K::Ptr || ptrReg(p) >= I.nstatic || I.regions[ptrReg(p)].kind != RK::Glob || !isC(ptrOff(p))) { viol(s, "C16", "memory safety", "reception enabled on " + show(p)); viol(s, "C26", "reception buffer belongs to the library", "reception enabled on " + show(p)); break; }
        Term d = load(s, p, 0, 8, true); if (T.kind(d) != K::Ptr || ptrReg(d) >= I.nstatic || I.regions[ptrReg(d)].kind != RK::Glob) viol(s, "C26", "reception buffer belongs to the library", "the reception descriptor has no buffer (" + show(d) + ") when reception is enabled"); else { i64 r = ptrReg(d), o = cval(ptrOff(d)), lim = I.regSize(s, r) - o; auto& R = I.regions[r]; if (R.glob >= 0 && I.m.globals[R.glob].ptrRows) { auto& g = I.m.globals[R.glob]; i64 row = g.size / g.elems; lim = row - o % row; } if (lim < 256) viol(s, "C16", "reception buffer holds a whole frame", "reception buffer " + I.regName(s, r) + " has only " + std::to_string(lim) + " bytes"); }
        s.g[GREQ] = p; s.g[GOFF] = 0; descs.insert({(int)ptrReg(p), cval(ptrOff(p))}); break; }
      case S_DISABLE: s.g[GOFF] = 1; break;
      case S_SEND: doSend(s, a[0], a[1], outs); return; }
    outs.push_back({s, 0}); }
  // ---- expected frame of the request in slot k; fills bytes, false when the quantity is not determined
  bool expected(State& s, int k, std::vector<Term>& B) {
    int fc = fcOf(s, k); B = {S[k], C(fc), mkSlice(A[k], 8, 8), mkSlice(A[k], 0, 8)}; Term q = qtyField(fc, k); B.push_back(mkSlice(q, 8, 8)); B.push_back(mkSlice(q, 0, 8));
    if (fc >= 15) { Iv v = ivl(s, Q[k]); if (v.lo != v.hi) return false; i64 n = v.lo, bc = fc == 16 ? 2 * n : (n + 7) / 8; B.push_back(C(bc));
      for (i64 j = 0; j < bc; j++) { if (fc == 16) { Term rg = mkVar(VEXT, regArr[k], j / 2, 0, 65535); B.push_back(mkSlice(rg, j % 2 ? 0 : 8, 8)); } else { Term e = T0; for (i64 b = 0; b < 8 && 8 * j + b < n; b++) e = add(e, mulc(mkVar(VEXT, coilArr[k], 8 * j + b, 0, 1), 1 << b)); B.push_back(e); } } }
    return true; }
  // index of the first differing byte, or -1 when the frame at ptr is exactly the request in slot k
  int differs(State& s, Term ptr, Term len, int k, std::string& what) {
    std::vector<Term> E; if (!expected(s, k, E)) throw Undecided{"frame of an undetermined quantity"}; i64 n = E.size(); if (!provenEq(s, len, C(n + 2))) { what = "frame length is " + show(norm(s, len)) + " instead of " + std::to_string(n + 2); return 1000; }
    std::vector<Term> B; for (i64 i = 0; i < n + 2; i++) { Term b = load(s, ptr, i, 1); if (b == TUndef) { what = "byte " + std::to_string(i) + " was never written"; return i; } B.push_back(b); }
    for (i64 i = 0; i < n; i++) if (norm(s, B[i]) != norm(s, E[i]) && !provenEq(s, B[i], E[i])) { what = "byte " + std::to_string(i) + " is " + show(norm(s, B[i]), 4) + " instead of " + show(norm(s, E[i]), 4); return i; }
    std::vector<Term> body(B.begin(), B.end() - 2); Term crc = add(B[n], mulc(B[n + 1], 256)); if (!provenEq(s, crc, mkCrc(0, mkTuple(body), 0, 0))) { what = "the last two bytes are " + show(norm(s, B[n]), 3) + ", " + show(norm(s, B[n + 1]), 3) + ", not the checksum of the preceding bytes, low byte first"; return n; }
    count("request frame bytes compared", n + 2); return -1; }
  // what is decided about a response is decided after its end
  void tooSoon(State& s, const std::string& what) { if (s.g[GORIG] == O_CLEAN && (s.g[GRX] == R_RX || s.g[GRX] == R_S)) viol(s, "C18", "a damaged response is awaited to its end", what + " before the 3.5 character silence after the damaged response has been reported: the line is still in use"); }
  void doSend(State& s, Term ptr, Term len, std::vector<Out>& outs) {
    count("transmissions analysed"); ptr = norm(s, ptr);
    if (s.g[GTXS]) viol(s, "C14", "one transmission at a time", "a transmission is started while the previous one is still in progress");
    if (s.g[GINIT]) { viol(s, "C26", "initialisation sends nothing", "a frame is sent during initialisation"); return; }
    if (s.g[GOUTC]) finish(s);
    if (s.g[GOUT] <= 0) { viol(s, "C18", "only accepted requests are transmitted", "a frame is sent although no request is outstanding"); viol(s, "C12", "refused calls have no effect", "a frame is sent although no accepted request is outstanding"); return; }
    int k = cur(s), fc = fcOf(s, k); std::vector<State> cases; if (fc >= 15) { Iv v = ivl(s, Q[k]); if (v.lo != v.hi) { for (i64 n = v.lo; n <= v.hi; n++) { State t = s; if (assume(t, mkEq(Q[k], C(n)), true)) cases.push_back(std::move(t)); } } } if (cases.empty()) cases.push_back(s);
    for (State& t : cases) {
      std::string w; int d = differs(t, ptr, len, k, w);
      if (d >= 0) {
        std::string w2; bool next = false; for (int j = 1; j < t.g[GOUT] && !next; j++) { int k2 = slot(t, j); State u = t; if (fcOf(t, k2) >= 15) { Iv v = ivl(u, Q[k2]); if (v.lo != v.hi) continue; } next = differs(u, ptr, len, k2, w2) < 0; }
        if (next) { if (t.g[GSENT]) viol(t, "C14", "one request at a time", "the next request is transmitted although the current one (" + reqText(fc) + ") has no outcome yet"), viol(t, "C18", "every request has an outcome", "the request (" + reqText(fc) + ") is abandoned without an outcome"); else viol(t, "C14", "requests are sent in the order of the calls", "a later request is transmitted first"); }
        else { viol(t, t.g[GSENT] ? "C18" : "C11", t.g[GSENT] ? "the identical frame is repeated" : "frames encode the call", reqText(fc) + ": " + w); if (t.g[GOUT] > 1 || t.g[GREF]) viol(t, "C14", "queued requests are not altered", reqText(fc) + ": " + w); if (t.g[GREF]) viol(t, "C12", "refused calls alter no pending request", reqText(fc) + ": " + w); }
        continue; }
      if (t.g[GSENT]) {
        if (t.g[GSENT] > cfg.retries) { std::string m = "the frame is transmitted " + std::to_string(t.g[GSENT] + 1) + " times, more than 1 + " + std::to_string(cfg.retries); viol(t, "C18", "bounded number of transmissions", m); if (cfg.markRef && t.g[GREF]) viol(t, "C12", "refused calls have no effect", m + ", after a refused request call"); }
        if (t.g[GORIG] == O_NONE) viol(t, "C18", "only damaged responses cause a repetition", "the frame is repeated although nothing was received since it was sent");
        mustAccept(t, "the request is repeated"); tooSoon(t, "the request is repeated"); }
      if (s.g[GREQ] == 0 || s.g[GOFF]) t.g[GOFF] = t.g[GOFF];
      t.g[GSENT] = std::min<i64>(t.g[GSENT] + 1, cfg.retries + 2); t.g[GTXS] = 1; t.g[GORIG] = t.g[GRX] == R_QUIET ? O_NONE : t.g[GRST] ? O_DIRTY : O_STALE; if (t.g[GRST]) t.g[GFES] = 0; if (t.g[GRX] == R_D) { t.g[GRX] = R_QUIET; t.g[GORIG] = O_NONE; } t.g[GTXP] = ptr; Iv lv = ivl(t, len); t.g[GTXL] = lv.hi; t.g[GEARLY] = 0; t.g[GTIMED] = 0;
      if (cfg.early && t.g[GTX]) { State u = t; u.g[GEARLY] = 1; i64 p = u.g[GPOLL]; u.g[GPOLL] = 0; for (auto& o : notify(u, E_TXD)) { o.s.g[GPOLL] = p; outs.push_back({o.s, 0}); } }
      outs.push_back({t, 0}); } }
  // ---- checksum of the response
  std::vector<Term> crcForms(i64 n) { std::vector<Term> r; if (n < 2) return r; std::vector<Term> b(F, F + n); r.push_back(mkEq(mkCrc(0, mkTuple(b), 0, 0), T0)); Term hi = F[n - 1], lo = F[n - 2]; b.resize(n - 2); r.push_back(mkEq(mkCrc(0, mkTuple(b), 0, 0), add(lo, mulc(hi, 256)))); return r; }
  Term crcW() { return mkEq(mkCrc(1, frameTup, 0, L), T0); }
  // byte-wise comparison of the trailing checksum with the one of the preceding bytes
  std::vector<Term> crcPair(i64 n) { Term c, lo, hi; if (n < 0) { c = mkCrc(1, frameTup, 0, addc(L, -2)); lo = mkSel(frameTup, addc(L, -2)); hi = mkSel(frameTup, addc(L, -1)); } else { if (n < 2) return {}; c = mkCrc(0, mkTuple(std::vector<Term>(F, F + n - 2)), 0, 0); lo = F[n - 2]; hi = F[n - 1]; } return {mkEq(mkSlice(c, 0, 8), lo), mkEq(mkSlice(c, 8, 8), hi)}; }
  bool crcPairIs(State& s, bool want, i64 n) override { auto p = crcPair(n); if (p.empty()) return false; bool a = proven(s, want ? p[0] : mkNot(p[0])), b = proven(s, want ? p[1] : mkNot(p[1])); return want ? a && b : a || b; }
  bool crcIs(State& s, bool want) { if (proven(s, want ? crcW() : mkNot(crcW()))) return true; if (R.count.count("trailing checksum bytes read") && crcPairIs(s, want, -1)) return true; Iv v = ivl(s, L); if (v.lo == v.hi) for (Term c : crcForms(v.lo)) if (proven(s, want ? c : mkNot(c))) return true; return v.lo == v.hi && crcPairIs(s, want, v.lo); }
  bool assumeCrc(State& s) { if (!assume(s, crcW(), true, false)) return false; Iv v = ivl(s, L); if (v.lo != v.hi && R.count.count("trailing checksum bytes read")) for (Term c : crcPair(-1)) if (!assume(s, c, true, false)) return false; if (v.lo == v.hi) { for (Term c : crcForms(v.lo)) if (!assume(s, c, true, false)) return false; for (Term c : crcPair(v.lo)) if (!assume(s, c, true, false)) return false; } return true; }
  Term respCount(int fc, int k) { return fc <= 2 ? mkSlice(addc(Q[k], 7), 3, 20) : mulc(Q[k], 2); }
  Term respLen(int fc, int k) { return fc <= 4 ? addc(respCount(fc, k), 5) : C(8); }
  // the frame in the reception buffer is a valid normal (or exception) response to the current request
  bool assumeValid(State& s, bool exc) { int k = cur(s), fc = fcOf(s, k); if (!assume(s, mkEq(F[0], S[k]), true) || !assume(s, mkEq(F[1], C(exc ? fc | 128 : fc)), true) || !assume(s, mkEq(L, exc ? C(5) : respLen(fc, k)), true)) return false; if (!exc && fc <= 4 && !assume(s, mkEq(F[2], respCount(fc, k)), true)) return false; 
    if (exc && !assumeRange(s, F[2], 1, 4)) return false; if (!exc && fc > 4) { int j = 0; for (Term q : {A[k], qtyField(fc, k)}) { for (int h : {8, 0}) if (!assume(s, mkEq(F[2 + j++], mkSlice(q, h, 8)), true)) return false; } }
    if (!assumeCrc(s)) return false;
    Iv v = ivl(s, L); if (v.lo != v.hi) { for (i64 n = v.lo; n <= v.hi; n++) { State t = s; if (assume(t, mkEq(L, C(n)), true) && assumeCrc(t)) return true; } return false; } return true; }
  void mustAccept(State& s, const std::string& instead) {          // a clean, complete, matching response must not lead to anything but its own outcome
    if (s.g[GORIG] != O_CLEAN || s.g[GRX] != R_D || s.g[GFES] || s.g[GOFF]) return; int fc = fcOf(s, cur(s));
    for (int exc = 0; exc < 2; exc++) { State t = s; if (!assumeValid(t, exc)) continue; std::string p = exc ? "C20" : fc <= 4 ? "C15" : "C28"; std::string m = std::string(exc ? "a valid exception response" : "a valid matching response") + " to " + reqText(fc) + " has arrived, but " + instead; viol(t, p, exc ? "exception responses are reported" : fc <= 4 ? "matching responses are delivered" : "matching responses are confirmed", m); viol(t, "C18", "only damaged responses cause errors", m); if (s.g[GEARLY]) viol(t, "C23", "early completion is not lost", m); if (s.g[GRE]) viol(t, "C26", "initialisation is complete", m + " (after a repeated initialisation)"); if (instead.find("timeout") != std::string::npos) viol(t, "C19", "only unanswered requests time out", m); } }
  bool acceptable(State& s, bool exc, std::string& why) {
    int k = cur(s), fc = fcOf(s, k);
    if (s.g[GTXS]) { why = "the request is still being transmitted"; return false; } if (s.g[GRX] != R_D) { why = rxName[s.g[GRX]]; return false; } if (s.g[GORIG] == O_STALE) { why = "the frame had started before the request was sent"; return false; } if (s.g[GFES]) { why = "the driver reported a frame error"; return false; }
    if (!provenEq(s, F[0], S[k])) { why = "the address byte is not known to be the addressed slave's"; return false; } if (!crcIs(s, true)) { why = "the checksum is not known to be right"; return false; } if (!provenEq(s, F[1], C(exc ? fc | 128 : fc))) { why = "the function code of the response is " + show(norm(s, F[1])) + " for a request with " + reqText(fc); return false; }
    Term el = exc ? C(5) : respLen(fc, k); if (!provenEq(s, L, el)) { why = "the response has " + show(norm(s, L)) + " bytes where " + show(norm(s, el)) + " are required"; return false; } if (!exc && fc <= 4 && !provenEq(s, F[2], respCount(fc, k))) { why = "the byte count of the response is " + show(norm(s, F[2])) + " where " + show(norm(s, respCount(fc, k))) + " is required"; return false; } return true; }
  // an outcome is signalled to the application
  bool outcome(State& s, int oc, const std::string& fn) {
    if (s.g[GCB]) viol(s, "C22", "notifications only signal", "a notification or the timer tick calls " + fn); if (s.g[GCALL]) viol(s, "C29", "request calls only queue", "a request call invokes " + fn); if (s.g[GINIT]) { viol(s, "C26", "initialisation reports nothing", "initialisation calls " + fn); return false; }
    if (s.g[GOUT] <= 0 || !s.g[GSENT]) { viol(s, oc <= C_EXC ? "C17" : "C18", "reports concern a transmitted request", fn + " is called although no request is in progress"); return false; }
    if (s.g[GOUTC] && !(oc == C_DATA && s.g[GOUTC] == C_DATA)) { std::string m = std::string(outName[oc]) + " for a request that already had " + outName[s.g[GOUTC]]; viol(s, "C18", "one outcome per request", m); viol(s, oc == C_DATA ? "C15" : oc == C_CONF ? "C28" : oc == C_TMO ? "C19" : "C20", "one outcome per request", m); }
    s.g[GOUTC] = oc; count("outcomes analysed"); return true; }
  Term fld(State& s, Term p, i64 off, int size) { return load(s, p, off, size); }
  void cmp(State& s, const char* prop, const char* rule, const std::string& what, Term got, Term want) { if (got == TUndef) { viol(s, prop, rule, what + " is not set"); return; } if (!provenEq(s, got, want)) viol(s, prop, rule, what + " is " + show(norm(s, got), 4) + " instead of " + show(norm(s, want), 4)); }
  bool appCall(State& s, const std::string& n, const std::vector<Term>& a, std::vector<Out>& outs) override {
    static const std::map<std::string, int> rd = {{"modbus_master_coil_read", 1}, {"modbus_master_disin_read", 2}, {"modbus_master_hreg_read", 3}, {"modbus_master_inreg_read", 4}}; static const std::map<std::string, int> wr = {{"modbus_master_coil_write", 0}, {"modbus_master_hreg_write", 2}}; static const std::map<std::string, int> ex = {{"modbus_master_coil_exception", 0}, {"modbus_master_disin_exception", 1}, {"modbus_master_hreg_exception", 2}, {"modbus_master_inreg_exception", 3}};
    int k = cur(s), fc = fcOf(s, k), obj = fc == 1 || fc == 5 || fc == 15 ? 0 : fc == 2 ? 1 : fc == 4 ? 3 : 2; std::string why;
    if (auto i = rd.find(n); i != rd.end()) {
      if (outcome(s, C_DATA, n)) {
        if (fc != i->second) { viol(s, "C15", "data go to the callback of the kind that was read", n + " is called for a request with " + reqText(fc)); if (fc > 4) viol(s, "C17", "responses match the request", n + " is called for a request with " + reqText(fc)); }
        else { if (!acceptable(s, false, why)) viol(s, "C17", "only valid matching responses are accepted", n + " is called although " + why); 
          cmp(s, "C15", "data carry the slave address", "slave address", a[0], S[k]);
          i64 ix = -1; for (i64 c : {s.g[GDEL], (i64)-1}) { if (c < 0) { Iv v = ivl(s, sub(norm(s, a[1]), norm(s, A[k]))); if (v.lo == v.hi) ix = v.lo; else { v = ivl(s, mkSlice(addc(sub(norm(s, a[1]), norm(s, A[k])), 65536), 0, 16)); if (v.lo == v.hi) ix = v.lo; } } else if (provenEq(s, a[1], mkSlice(addc(A[k], c), 0, 16))) { ix = c; break; } }
          if (ix < 0) viol(s, "C15", "data carry the object's address", "object address " + show(norm(s, a[1])) + " reported for start address " + show(norm(s, A[k])));
          else { bool dup = ix < s.g[GDEL]; for (auto* l = s.log; l && !dup; l = l->parent) if (l->kind == LOGD && l->a[0] == ix) dup = true; if (dup) viol(s, "C15", "each object is reported once", "object " + std::to_string(ix) + " is reported again");
            if (!proven(s, mkLe(C(ix + 1), Q[k]))) viol(s, "C15", "only requested objects are reported", "object " + std::to_string(ix) + " is reported for a quantity of " + show(norm(s, Q[k])));
            if (ix < 2100) { Term e = fc <= 2 ? mkSlice(F[(3 + ix / 8) & 255], ix % 8, 1) : add(mulc(F[(3 + 2 * ix) & 255], 256), F[(4 + 2 * ix) & 255]); if (!provenEq(s, a[2], e)) viol(s, "C15", "values are those of the response", "value of object " + std::to_string(ix) + " is " + show(norm(s, a[2])) + ", the response carries " + show(norm(s, e))); count("delivered values compared"); }
            if (ix == s.g[GDEL]) { s.g[GDEL]++; for (bool more = true; more;) { more = false; for (auto* l = s.log; l; l = l->parent) if (l->kind == LOGD && l->a[0] == s.g[GDEL]) { s.g[GDEL]++; more = true; break; } } } else s.log = logAdd(s.log, LOGD, {ix}); } } }
      return nested(s, outs); }
    if (auto i = wr.find(n); i != wr.end()) {
      if (outcome(s, C_CONF, n)) {
        if (fc < 5) { viol(s, "C28", "confirmations only for writes", n + " is called for a request with " + reqText(fc)); viol(s, "C17", "responses match the request", n + " is called for a request with " + reqText(fc)); }
        else { if (obj != i->second) viol(s, "C28", "confirmation of the kind that was written", n + " is called for a request with " + reqText(fc)); if (!acceptable(s, false, why)) viol(s, "C17", "only valid matching responses are accepted", n + " is called although " + why), viol(s, "C28", "confirmations only for matching responses", n + " is called although " + why);
          cmp(s, "C28", "confirmation names the request", "slave address", a[0], S[k]); cmp(s, "C28", "confirmation names the request", "start address", a[1], A[k]); cmp(s, "C28", "confirmation names the request", "quantity", a[2], fc >= 15 ? Q[k] : T1); } }
      return nested(s, outs); }
    auto rep = [&] { Term p = norm(s, a[0]); if (T.kind(p) == K::Ptr && ptrReg(p) < I.nstatic && I.regions[ptrReg(p)].kind == RK::Glob) reportRegions.insert(ptrReg(p)); return p; };
    if (auto i = ex.find(n); i != ex.end()) {
      if (outcome(s, C_EXC, n)) { Term p = rep(); if (obj != i->second) viol(s, "C20", "exceptions go to the callback of the addressed kind", n + " is called for a request with " + reqText(fc)); if (!acceptable(s, true, why)) viol(s, "C17", "only valid matching responses are accepted", n + " is called although " + why);
        const char* r = "exception reports identify the request"; cmp(s, "C20", r, "slave address", fld(s, p, 0, 1), S[k]); cmp(s, "C20", r, "function code", fld(s, p, 4, 4), C(fc)); cmp(s, "C20", r, "exception code", fld(s, p, 8, 4), F[2]); cmp(s, "C20", r, "address", fld(s, p, 12, 2), A[k]); cmp(s, "C20", r, "quantity field", fld(s, p, 14, 2), qtyField(fc, k)); }
      return nested(s, outs); }
    if (n == "modbus_master_data_timeout_error") {
      if (outcome(s, C_TMO, n)) { Term p = rep(); const char* r = "timeout reports identify the request"; cmp(s, "C19", r, "slave address", fld(s, p, 0, 1), S[k]); cmp(s, "C19", r, "function code", fld(s, p, 4, 4), C(fc)); cmp(s, "C19", r, "address", fld(s, p, 8, 2), A[k]); cmp(s, "C19", r, "quantity field", fld(s, p, 10, 2), qtyField(fc, k)); cmp(s, "C19", r, "error kind", fld(s, p, 12, 4), T1);
        if (s.g[GTXS]) viol(s, "C19", "the time starts after the transmission", "a timeout is reported while the request is still being transmitted"); mustAccept(s, "a timeout is reported"); s.g[GTIMED] = 1; }
      return nested(s, outs); }
    if (n == "modbus_master_communication_error") {
      if (outcome(s, C_ERR, n)) { Term p = rep(); const char* r = "error reports identify the request"; cmp(s, "C20", r, "slave address", fld(s, p, 0, 1), S[k]); cmp(s, "C20", r, "function code", fld(s, p, 4, 4), C(fc)); cmp(s, "C20", r, "address", fld(s, p, 8, 2), A[k]); cmp(s, "C20", r, "quantity field", fld(s, p, 10, 2), qtyField(fc, k)); Term e = fld(s, p, 12, 4);
        if (e == TUndef) viol(s, "C20", "the error kind is reported", "error kind is not set"); else { bool isF = provenEq(s, e, C(2)), isC_ = provenEq(s, e, T0); if (!isF && !isC_) viol(s, "C20", "the error kind is reported", "error kind is " + show(norm(s, e))); else if (s.g[GORIG] == O_CLEAN && s.g[GRX] == R_D) { if (isF && !s.g[GFES] && crcIs(s, false)) viol(s, "C20", "the error kind is reported", "a wrong checksum is reported as a frame error"); if (isC_ && crcIs(s, true)) viol(s, "C20", "the error kind is reported", "a frame error is reported as a wrong checksum"); } }
        if (s.g[GSENT] != cfg.retries + 1) { std::string m = "a communication error is reported after " + std::to_string(s.g[GSENT]) + " transmission(s) instead of " + std::to_string(cfg.retries + 1); viol(s, "C18", "errors are reported after all repetitions", m); if (cfg.markRef && s.g[GREF]) viol(s, "C12", "refused calls have no effect", m + ", after a refused request call"); } if (s.g[GORIG] == O_NONE) viol(s, "C18", "only damaged responses cause errors", "a communication error is reported although nothing was received"); mustAccept(s, "a communication error is reported"); tooSoon(s, "a communication error is reported"); }
      return nested(s, outs); }
    return false; }
  // the application may issue a new request from inside a callback
  bool nested(State& s, std::vector<Out>& outs) {
    outs.push_back({s, 0}); if (!cfg.nested || s.g[GNEST] || s.g[GDEL] > 1 || s.g[GOUT] >= cfg.maxOut || s.g[GCB] || s.g[GINIT]) return true;
    State t = s; t.g[GNEST] = 1; i64 p = t.g[GPRE]; t.g[GPRE] = 99; for (auto& o : request(t, 6, false)) { o.s.g[GPRE] = p; outs.push_back({o.s, 0}); } return true; }
  void finish(State& s) {                                           // the current request had its outcome
    int k = cur(s), fc = fcOf(s, k); if (s.g[GOUTC] == C_DATA && !provenEq(s, Q[k], C(s.g[GDEL]))) viol(s, "C15", "every requested object is reported", std::to_string(s.g[GDEL]) + " object(s) reported for a quantity of " + show(norm(s, Q[k]))); (void)fc; if (s.log) viol(s, "C15", "every requested object is reported", "the reported objects have gaps"); s.log = nullptr;
    s.g[GK + k] = s.g[GB + k] = 0; s.g[GHEAD] = (k + 1) % NS; s.g[GOUT]--; s.g[GOUTC] = s.g[GDEL] = s.g[GSENT] = 0; s.g[GORIG] = s.g[GRX] != R_QUIET ? O_STALE : O_NONE; s.g[GEARLY] = 0; count("requests finished"); }
  // ---- request calls
  std::vector<Out> request(State s, int fc, bool bad) {
    int k = slot(s, s.g[GOUT]); bool full = s.g[GOUT] >= cfg.queue; if (full) k = 7; if (s.g[GOUT] >= NS && !full) throw Undecided{"too many outstanding requests"};
    if (fc <= 4 || fc >= 15) { Term lo = mkLe(T1, Q[k]), hi = mkLe(Q[k], C(bad ? qmax(fc) : qcap(fc))); if (bad) { State t = s; std::vector<Out> r; if (assume(t, lo, false)) for (auto& o : requestCall(t, fc, k, full)) r.push_back(o); State u = s; if (assume(u, hi, false)) for (auto& o : requestCall(u, fc, k, full)) r.push_back(o); return r; } if (!assume(s, lo, true) || !assume(s, hi, true)) return {}; }
    return requestCall(s, fc, k, full); }
  i64 qcap(int fc) { return cfg.qcap && (fc <= 4 || fc >= 15) ? std::min<i64>(cfg.qcap, qmax(fc)) : qmax(fc); }
  std::vector<Out> requestCall(State s, int fc, int k, bool full) {
    std::vector<Term> a; switch (fc) { case 1: case 2: case 3: case 4: a = {A[k], Q[k], S[k]}; break; case 5: a = {A[k], S[k], Bv[k]}; break; case 6: a = {A[k], S[k], V[k]}; break; case 15: a = {A[k], Q[k], S[k], mkPtr(coilArr[k], T0)}; break; default: a = {A[k], Q[k], S[k], mkPtr(regArr[k], T0)}; }
    State pre = s; s.g[GCALL]++; auto o = callFn(apiName(fc), a, s); count("request calls analysed"); std::vector<Out> r;
    for (auto& x : o) { x.s.g[GCALL]--; Term rv = norm(x.s, x.ret); State acc = x.s, ref = x.s; bool ca = assume(acc, mkEq(rv, T0), true), cr = assume(ref, mkEq(rv, T0), false);
      auto inRange = [&](State& t, bool want) { if (fc == 5 || fc == 6) return want; Term lo = mkLe(T1, Q[k]), hi = mkLe(Q[k], C(qmax(fc))); State u = t; if (want) { if (!assume(u, lo, true) || !assume(u, hi, true)) return false; t = u; return true; } if (assume(u, lo, false)) { t = u; return true; } u = t; if (assume(u, hi, false)) { t = u; return true; } return false; };
      if (ca) { State t = acc; if (inRange(t, false)) viol(t, "C12", "only valid requests are accepted", reqText(fc) + " with quantity " + show(norm(t, Q[k])) + " " + "outside 1.." + std::to_string(qmax(fc)) + " is accepted"); if (full) viol(acc, "C13", "no more requests than message buffers", "a request is accepted although " + std::to_string(cfg.queue) + " are outstanding"); else { acc.g[GK + k] = fc; acc.g[GOUT]++; acc.g[GB + k] = changedRows(pre, acc); r.push_back({acc, rv}); } }
      if (cr) { { State t = ref; if (inRange(t, true)) { if (!full) { bool empty = feasible(t, mkEq(rv, T1), true); if (empty) viol(t, "C13", "message buffers are not lost", "a valid request is refused for lack of buffers although only " + std::to_string(t.g[GOUT]) + " of " + std::to_string(cfg.queue) + " are in use" + (t.g[GREF] ? " (after a refused request)" : "")); viol(t, "C12", "valid requests are accepted", reqText(fc) + " with quantity " + show(norm(t, Q[k])) + " is refused with code " + show(rv) + " although " + std::to_string(cfg.queue - t.g[GOUT]) + " buffer(s) should be free"); if (t.g[GRE]) viol(t, "C26", "all buffers are free after initialisation", "after a repeated initialisation a valid request is refused"); if (t.g[GREF] && empty) viol(t, "C12", "refused calls have no effect", "a refused call uses up a message buffer"); } else if (!provenEq(t, rv, T1)) viol(t, "C12", "refusals report the reason", "exhausted buffers are reported as " + show(rv)); } }
        { State t = ref; if (!full && inRange(t, false)) { Iv v = ivl(t, rv); if (v.lo < 2 || v.hi > 3) viol(t, "C12", "refusals report the reason", reqText(fc) + " with an invalid quantity is refused with code " + show(rv)); } }
        ref.g[GREF] = std::min<i64>(ref.g[GREF] + 1, std::max(1, cfg.maxRef)); r.push_back({ref, rv}); } }
    return r; }
  i64 changedRows(const State& a, const State& b) {                 // the row of a byte buffer that the call wrote
    for (int r = 0; r < I.nstatic; r++) { auto& R = I.regions[r]; if (!R.bytes || R.kind != RK::Glob) continue; for (i64 c = 0; c * CH < R.size; c++) { auto& x = a.mem[R.chunk0 + c]; auto& y = b.mem[R.chunk0 + c]; if (x.p != y.p) { i64 row = R.size; if (R.glob >= 0 && I.m.globals[R.glob].elems > 0 && I.m.globals[R.glob].ptrRows) row = R.size / I.m.globals[R.glob].elems; return ((i64)(r + 1) << 32) | (c * CH / row * row); } } } return 0; }
  // ---- bus
  void refill(State& s) {                                           // the frame was looked at while it was still arriving: what was learnt no longer holds
    s.g[GPEEK] = 0; Term q = (Term)s.g[GREQ]; if (provenEq(s, load(s, q, 8, 1), T0)) { if (s.g[GPOLL]) s.g[GRST] = 1; if (s.g[GORIG] == O_STALE) s.g[GORIG] = O_DIRTY; } /* reception had been restarted: nothing older is left in the buffer */ LiveSet live = liveSyms(s, false); std::vector<u64> key; midCall = true; canonical(s, live, liveRanges(s, false), key, "C16"); midCall = false; Term d = load(s, q, 0, 8, true); for (int i = 0; i < 256; i++) store(s, d, i, 1, F[i]); store(s, q, 8, 1, L); }
  bool rx(State& s, int e) {
    if (!s.g[GREQ] || s.g[GOFF]) return false; Term q = (Term)s.g[GREQ]; Term d = load(s, q, 0, 8, true), l = load(s, q, 8, 1); if (T.kind(d) != K::Ptr) return false; bool cont = s.g[GRX] != R_QUIET;
    LiveSet live = liveSyms(s, false); if (cont) { std::vector<u64> key; canonical(s, live, liveRanges(s, false), key, "C16"); }
    bool sent = s.g[GOUT] > 0 && s.g[GSENT] > 0 && !s.g[GOUTC]; if (!cont) s.g[GFES] = 0; s.g[GPEEK] = 0;
    if (cont) s.g[GORIG] = s.g[GORIG] == O_STALE ? O_STALE : O_DIRTY; else if (!sent) s.g[GORIG] = O_STALE; else if (e == E_NOISE || s.g[GTXS] || s.g[GORIG] != O_NONE) s.g[GORIG] = O_DIRTY; else s.g[GORIG] = O_CLEAN;
    if (s.g[GORIG] == O_CLEAN && !provenEq(s, l, T0)) { viol(s, "C17", "ready for the response", "the response arrives while the received length is " + show(norm(s, l)) + " instead of 0: it is appended to old bytes"); viol(s, "C21", "ready for the response", "the response arrives while the received length is " + show(norm(s, l)) + " instead of 0"); }
    s.g[GRX] = R_RX; for (int i = 0; i < 256; i++) if (!store(s, d, i, 1, F[i])) return false; store(s, q, 8, 1, L); return true; }
  // ---- canonical boundary states
std::vector<u8> frameMarks;
  void markFrame() { Term c = mkCrc(1, frameTup, 0, L); frameMarks.assign(std::max({c, L, F[255], F[0]}) + 1, 0); for (int i = 0; i < 256; i++) { if (F[i] >= frameMarks.size()) frameMarks.resize(F[i] + 1, 0); frameMarks[F[i]] = 1; } frameMarks[L] = frameMarks[c] = 1; }
  LiveSet liveSyms(const State& s, bool frame) { LiveSet v; for (int j = 0; j < s.g[GOUT]; j++) { int k = slot(s, j), fc = fcOf(s, k); v.insert(A[k]); v.insert(S[k]); if (fc == 5) v.insert(Bv[k]); else if (fc == 6) v.insert(V[k]); else v.insert(Q[k]); if (fc >= 15) for (i64 i = 0; i < std::max<i64>(qcap(fc), 1); i++) { if (fc == 15) v.insert(mkVar(VEXT, coilArr[k], i, 0, 1)); else v.insert(mkVar(VEXT, regArr[k], i, 0, 65535)); } } if (frame) v.marks = &frameMarks; return v; }
  std::vector<LiveRange> liveRanges(const State& s, bool frame) { std::vector<LiveRange> v; for (int j = 0; j < s.g[GOUT]; j++) { i64 b = s.g[GB + slot(s, j)]; if (b) v.push_back({(int)(b >> 32) - 1, b & 0xffffffff, (b & 0xffffffff) + 256}); } if (frame && frReg >= 0) v.push_back({(int)frReg, frOff, frOff + 256}); return v; }
  bool midCall = false; i64 frReg = -1, frOff = 0; State* cs = nullptr;
  bool canonSpecial(int r, i64 lo, i64 hi) override { if (reportRegions.count(r)) return true; for (auto& d : descs) if (d.first == r && d.second + 9 > lo && d.second + 8 < hi) return true; auto it = timerCells.lower_bound({r, lo - 8}); return it != timerCells.end() && it->first == r && it->second < hi; }
  Term canonCell(State& s, int r, i64 o, int size, Term n) override {
    if (reportRegions.count(r) && T.kind(n) != K::Ptr && T.kind(n) != K::Null) return mkVar(VTOP, r, o, size == 4 ? -((i64)1 << 31) : 0, size == 4 ? ((i64)1 << 31) - 1 : ((i64)1 << (8 * size)) - 1);
    if (size == 1 && !midCall) for (auto& d : descs) if (d.first == r && d.second + 8 == o && !(T.kind((Term)s.g[GREQ]) == K::Ptr && ptrReg((Term)s.g[GREQ]) == r && cval(ptrOff((Term)s.g[GREQ])) == d.second && s.g[GSENT])) return mkVar(VTOP, r, o, 0, 255);
    if (absTimer && size > 1 && timerCells.count({r, o}) && T.kind(n) != K::Ptr && T.kind(n) != K::Null && T.kind(n) != K::Fn) {
      Iv v = ivl(s, n); if (v.lo == 0 && v.hi == 0) return T0; auto& seen = timSeen[{r, o}]; if (v.lo == v.hi) { seen.insert(v.lo); if (seen.size() <= 6) return C(v.lo); } else { seen.insert(v.lo); seen.insert(v.hi); }
      i64 lo = *seen.begin(), hi = *seen.rbegin(); for (i64 x : seen) if (x == 0) lo = 0; lo = lo <= 0 ? 0 : 1; auto it = std::lower_bound(consts.begin(), consts.end(), hi); hi = it == consts.end() ? ((i64)1 << 31) - 1 : *it; seen.insert(hi); return mkVar(6, ((i64)r << 24) | o, (lo << 40) | hi, lo, hi); }
    return n; }
  void clean(State& s, std::vector<u64>& key) {
    if (s.g[GPEEK] && s.g[GRX] == R_RX) refill(s); if (!cfg.markRef) s.g[GREF] = 0; if (!cfg.markEarly) s.g[GEARLY] = 0; if (!cfg.markRe) s.g[GRE] = 0;
    s.g[GPEV] = s.g[GPOLL] = s.g[GPRE] = s.g[GCB] = s.g[GNEST] = s.g[GTIMED] = s.g[GRST] = 0; if (!s.g[GTXS]) s.g[GTXP] = s.g[GTXL] = 0; if (s.g[GRX] == R_QUIET) s.g[GFES] = s.g[GPEEK] = 0; if (!s.g[GOUT]) { s.g[GORIG] = s.g[GRX] == R_QUIET ? O_NONE : O_STALE; s.g[GHEAD] = s.g[GHEAD]; }
    for (int k = 0; k < 8; k++) { bool on = false; for (int j = 0; j < s.g[GOUT]; j++) if (slot(s, j) == k) on = true; if (!on) s.g[GK + k] = s.g[GB + k] = 0; }
    bool fr = s.g[GRX] != R_QUIET; frReg = -1; if (fr && s.g[GREQ]) { Term d = load(s, (Term)s.g[GREQ], 0, 8, true); if (T.kind(d) == K::Ptr && isC(ptrOff(d))) { frReg = ptrReg(d); frOff = cval(ptrOff(d)); } }
    if (s.g[GRE] && !s.g[GOUT] && s.g[GRX] == R_QUIET && s.g[GREF] == 0) {}
    canonical(s, liveSyms(s, fr), liveRanges(s, fr), key, "C16"); }
  std::vector<State> splitTimers(State s) {
    LiveSet lv = liveSyms(s, s.g[GRX] != R_QUIET && !(s.g[GPEEK] && s.g[GRX] == R_RX)); std::vector<State> r = splitControl(std::move(s), &lv); for (auto& tc : timerCells) { std::vector<State> n; for (auto& t : r) { const CellE* c = I.cellR(t, tc.first, tc.second); if (c->size <= 1 || c->pos || isC(c->t) || T.kind(c->t) == K::Ptr || T.kind(c->t) == K::Null || T.kind(c->t) == K::Fn || c->t == TUndef) { n.push_back(t); continue; } Term v = norm(t, c->t); Iv i = ivl(t, v); if (i.lo <= 0 && i.hi > 0) { State a = t, b = t; if (assume(a, mkEq(v, T0), true)) n.push_back(a); if (assume(b, mkEq(v, T0), false)) n.push_back(b); } else n.push_back(t); } r.swap(n); } return r; }
  struct Bd { State s; int parent; int ev; int depth; }; std::vector<Bd> bs; std::map<std::pair<u64, u64>, int> idx;
  static std::pair<u64, u64> hashKey(const std::vector<u64>& k) { u64 a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull; for (u64 x : k) { a = (a ^ x) * 0x9E3779B97F4A7C15ull; a ^= a >> 29; b = (b + x) * 0xC2B2AE3D27D4EB4Full; b ^= b >> 31; b += a << 7; } return {a, b}; }
  void setPath(int b, int ev) { std::vector<int> e; if (ev >= 0) e.push_back(ev); for (int k = b; k >= 0 && bs[k].parent >= 0; k = bs[k].parent) e.push_back(bs[k].ev); path.clear(); for (size_t i = e.size(); i-- > 0;) path.push_back(evName[e[i]]); }
  std::vector<int> addB(State s, int parent, int ev) { std::vector<int> r; for (auto& t : splitTimers(std::move(s))) { std::vector<u64> key; clean(t, key); auto h = hashKey(key); auto it = idx.find(h); if (it != idx.end()) { r.push_back(it->second); continue; } int id = bs.size(); idx[h] = id; bs.push_back({std::move(t), parent, ev, parent >= 0 ? bs[parent].depth + 1 : 0}); r.push_back(id); } return r; }
  std::vector<Out> poll(State s, bool pre) { s.g[GPOLL] = 1; s.g[GPRE] = pre ? 0 : 99; s.chain = nullptr; auto o = callFn("update_modbus_master_manager", {}, s); for (auto& x : o) if (x.s.g[GOUTC]) finish(x.s); count("polls analysed"); return o; }
  std::vector<Out> init(State s, bool again) {
    for (int i = 0; i < NG; i++) s.g[i] = 0; s.g[GINIT] = 1; s.g[GRE] = again; s.chain = nullptr; s.log = nullptr; auto o = callFn("modbus_master_init", {C(0), baud, par}, s);
    for (auto& x : o) { State& t = x.s; t.g[GINIT] = 0; if (!t.g[GDRVI]) viol(t, "C26", "driver is initialised", "initialisation does not initialise the driver"); if (!t.g[GTX] || !t.g[G15] || !t.g[G35] || !t.g[GFE]) viol(t, "C26", "all notifications are subscribed", "a driver notification is not subscribed"); count("initialisations analysed"); if (!again) t.g[GREQ] = 0; }
    return o; }
  std::vector<int> notifications() { std::vector<int> r; for (auto& o : init(I.init, false)) for (int k : {GTX, G15, G35, GFE}) { Term f = (Term)o.s.g[k]; if (f && T.kind(f) == K::Fn) { int id = T.pay(f)[0]; if (std::find(r.begin(), r.end(), id) == r.end()) r.push_back(id); } } return r; }
  void discover(const State& s) { for (int k : {GTX, G15, G35, GFE}) if (s.g[k]) { State t = s; t.g[GCB] = 1; rec = 1; callTerm((Term)s.g[k], {}, t); rec = 0; } recorded.clear(); for (int k : {GTX, G15, G35, GFE}) if (s.g[k]) { State t = s; t.g[GCB] = 1; learnRecord(I, s, flagCells, k, callTerm((Term)s.g[k], {}, t)); } rec = 2; State t = s; tick(t); rec = 0; if (flagCells.empty()) throw Undecided{"the notifications record nothing"}; if (timerCells.empty()) throw Undecided{"the timer tick uses no variable"}; count("flag bytes", flagCells.size()); }
  // ---- with the bus silent from now on, does the current request finish?
  std::map<std::pair<u64, u64>, int> liveMemo; u64 liveRuns = 0;
  void quiesce(State& t) { bool on = t.g[GOUT] > 0; if (on) mustAccept(t, "the master ignores it"); t.g[GRX] = R_QUIET; if (on && t.g[GORIG] == O_CLEAN && !t.g[GFES] && proven(t, mkNot(mkEq(F[0], S[cur(t)])))) t.g[GORIG] = O_NONE; }   // the poll leaves the frame alone
  int silentEv = 0;
  std::vector<Out> silentStep(State s, bool& ticked) {
    ticked = false; std::vector<Out> r; silentEv = s.g[GTXS] ? E_TXD : s.g[GRX] == R_RX ? E_T15 : s.g[GRX] == R_S ? E_T35 : s.g[GRX] == R_D ? E_POLL : E_TICK; auto ev = [&](int e) { path.push_back(std::string("(silence) ") + evName[e]); for (auto& o : notify(s, e)) { path.push_back(evName[E_POLL]); for (auto& p : poll(o.s, false)) r.push_back(p); path.pop_back(); } path.pop_back(); };
    if (s.g[GTXS]) { ev(E_TXD); return r; } if (s.g[GRX] == R_RX) { ev(E_T15); return r; } if (s.g[GRX] == R_S) { ev(E_T35); return r; }
    if (s.g[GRX] == R_D) { path.push_back(std::string("(silence) ") + evName[E_POLL]); std::vector<u64> k1; State a = s; clean(a, k1); auto h1 = hashKey(k1); for (auto& p : poll(s, false)) { std::vector<u64> k2; State b = p.s; clean(b, k2); if (hashKey(k2) == h1 && !s.g[GTXS]) quiesce(p.s); r.push_back(p); } path.pop_back(); return r; }
    ticked = true; path.push_back(std::string("(silence) ") + evName[E_TICK]); for (auto& o : tick(s)) { path.push_back(evName[E_POLL]); for (auto& p : poll(o.s, false)) r.push_back(p); path.pop_back(); } path.pop_back(); return r; }
  bool why(const State& s, const char* m, int depth) { if (I.prof) { fprintf(stderr, "NOTLIVE %s depth %d rx %ld txs %ld orig %ld sent %ld\n", m, depth, (long)s.g[GRX], (long)s.g[GTXS], (long)s.g[GORIG], (long)s.g[GSENT]); for (auto& fc : flagCells) fprintf(stderr, "  flag %d.%ld=%s", fc.first, (long)fc.second, show(I.cellR(s, fc.first, fc.second)->t).c_str()); for (auto& fc : timerCells) fprintf(stderr, "  timer %s", show(I.cellR(s, fc.first, fc.second)->t).c_str()); fprintf(stderr, "\n"); } return false; }
  bool lives(State s0, int head, int depth, const State& orig) {     // 1: proven to finish
    std::vector<State> sp = splitTimers(std::move(s0)); for (auto& s : sp) { if (s.g[GHEAD] != head || !s.g[GOUT]) continue; std::vector<u64> key; clean(s, key); auto h = hashKey(key); auto it = liveMemo.find(h); if (it != liveMemo.end()) { if (it->second == 1) continue; return why(s, it->second == 2 ? "cycle" : "known", depth); } if (depth > 3000) return why(s, "depth", depth); liveMemo[h] = 2; liveRuns++;
      std::map<std::pair<int, i64>, Term> before; for (auto& tc : timerCells) before[tc] = I.cellR(s, tc.first, tc.second)->t; bool ticked; auto nx = silentStep(s, ticked); std::string lab = std::string("(silence) ") + evName[silentEv] + (silentEv == E_POLL ? "" : ", poll"); if (nx.empty()) { liveMemo[h] = 0; return why(s, "no successor", depth); } bool ok = true;
      for (auto& o : nx) for (auto& t0 : splitTimers(o.s)) { if (t0.g[GHEAD] != head || !t0.g[GOUT]) continue; State t = t0; std::vector<u64> k2; State c = t; clean(c, k2); auto h2 = hashKey(k2);
          if (h2 == h) {                                             // same abstract state: the timer must have moved towards a bound
            bool ranked = false; for (auto& tc : timerCells) { Term b = before[tc], a = norm(t, I.cellR(t, tc.first, tc.second)->t); if (T.kind(b) != K::Var || isC(a)) { if (isC(a) && T.kind(b) == K::Var) ranked = true; continue; } Term d = sub(a, b); if (isC(d) && cval(d) != 0) ranked = true; }
            if (ranked) continue; why(s, "no progress", depth); ok = false; break; }
          path.push_back(lab); bool lv = lives(t, head, depth + 1, orig); path.pop_back(); if (!lv) { ok = false; break; } }
      liveMemo[h] = ok ? 1 : 0; if (!ok) return false; }
    return true; }
  void checkLive(const State& s) { if (!s.g[GOUT]) return; count("states checked for progress"); if (lives(s, s.g[GHEAD], 0, s)) return; std::string m = "with the bus silent, neither polls nor timer ticks bring the request (" + reqText(fcOf(s, cur(s))) + ") to an outcome"; viol(s, "C21", "the master never gets stuck", m); if (s.g[GEARLY]) viol(s, "C23", "early completion is not lost", m); if (s.g[GRE]) viol(s, "C26", "initialisation is complete", m); viol(s, "C18", "every request has an outcome", m); viol(s, "C13", "message buffers are not lost", m); if (!s.g[GTXS] && s.g[GRX] == R_QUIET && s.g[GORIG] == O_NONE && s.g[GSENT]) viol(s, "C19", "unanswered requests time out", m); }
  void probePool(State s) {                                         // nothing outstanding: exactly the configured number of requests is accepted
    count("pool probes"); auto cfg0 = cfg; cfg.maxOut = 99; std::vector<State> v{s}; for (int n = 0; n <= cfg.queue; n++) { std::vector<State> w; for (auto& t : v) { i64 o = t.g[GOUT], rf = t.g[GREF]; for (auto& x : request(t, 6, false)) if (x.s.g[GOUT] == o + 1) w.push_back(x.s); (void)rf; } v.swap(w); } cfg = cfg0; }
  void explore() {
    std::set<int> badKinds{3, 16}; for (int fc : cfg.kinds) if (fc != 5 && fc != 6) badKinds.insert(fc);
    State s0 = I.init; auto a = init(s0, false); if (a.empty()) throw Undecided{"initialisation never returns"}; discover(a[0].s); { State t = a[0].s; t.g[GCALL] = 0; for (int fc : {1, 6, 16}) request(t, fc, false); } R.viol.clear(); seen.clear(); reV.clear();
    for (auto& o : init(s0, false)) addB(o.s, -1, -1);
    size_t nrep = reportRegions.size();
    for (size_t b = 0; b < bs.size(); b++) {
      if (reportRegions.size() != nrep) { nrep = reportRegions.size(); bs.clear(); idx.clear(); liveMemo.clear(); for (auto& o : init(s0, false)) addB(o.s, -1, -1); b = 0; }   // what reports contain is not state: start over
      if (bs.size() > cfg.maxStates) throw Undecided{"more than " + std::to_string(cfg.maxStates) + " abstract states"};
      State s = bs[b].s; auto go = [&](State t, int ev) { count("transitions"); return addB(std::move(t), b, ev); };
      if (I.prof && b == (getenv("DVN") ? (size_t)atoi(getenv("DVN")) : 3000)) { std::map<std::string, std::set<std::string>> dv; for (auto& x : bs) { for (int i = 0; i < NG; i++) dv["g" + std::to_string(i)].insert(std::to_string(x.s.g[i])); dv["log"].insert(std::to_string((u64)x.s.log)); std::string fs; x.s.f->sub.each([&](Term k, Term v) { fs += show(k, 4) + "=" + show(v, 4) + ";"; }); x.s.f->iv.each([&](Term k, Fact v) { fs += show(k, 4) + " in " + std::to_string(v.lo) + "," + std::to_string(v.hi) + "," + std::to_string(v.ex) + ";"; }); dv["facts"].insert(fs); for (int r = 0; r < I.nstatic; r++) { auto& R = I.regions[r]; if (R.kind != RK::Glob || R.chunk0 < 0) continue; for (i64 o = 0; o < R.size; o++) { const CellE* c = I.cellR(x.s, r, o); if (c->size && c->pos == 0) dv[R.name + "+" + std::to_string(o)].insert(show(c->t, 4)); } } } for (auto& d : dv) if (d.second.size() > 1) { fprintf(stderr, "DV %s %zu:", d.first.c_str(), d.second.size()); int n = 0; for (auto& q : d.second) if (n++ < 14) fprintf(stderr, " {%s}", q.substr(0, 300).c_str()); fprintf(stderr, "\n"); } }
      if (I.prof && b % 500 == 0) fprintf(stderr, "state %zu of %zu steps %lu\n", b, bs.size(), (unsigned long)I.steps);
      setPath(b, -1); if (cfg.live) checkLive(s); if (!s.g[GOUT]) { setPath(b, -1); probePool(s); }
      setPath(b, E_POLL); auto po = poll(s, false); for (auto& o : po) for (int d : go(o.s, E_POLL)) if (d == (int)b && s.g[GRX] == R_D && !s.g[GTXS]) { State t = o.s; setPath(b, E_POLL); quiesce(t); go(t, E_POLL); }
      if (cfg.pre && (!enabled(s).empty() || cfg.tickPre)) for (auto& o : poll(s, true)) go(o.s, E_POLL);
      for (int e : enabled(s)) { setPath(b, e); for (auto& o : notify(s, e)) go(o.s, e); }
      setPath(b, E_TICK); for (auto& o : tick(s)) go(o.s, E_TICK);
      if (s.g[GRX] == R_QUIET && s.g[GSENT] && !s.g[GTXS]) { setPath(b, E_RX); State t = s; if (rx(t, E_RX)) for (auto& u : respSplit(t)) go(u, E_RX); }
      if (cfg.noise && s.g[GREQ] && s.g[GRX] == R_QUIET && (s.g[GTXS] || !s.g[GSENT])) { setPath(b, E_NOISE); State t = s; if (rx(t, E_NOISE)) for (auto& u : respSplit(t)) go(u, E_NOISE); }
      if (s.g[GOUT] < cfg.maxOut) { for (int fc : cfg.kinds) { setPath(b, E_REQ); for (auto& o : request(s, fc, false)) if (o.s.g[GOUT] > s.g[GOUT]) go(o.s, E_REQ); } }
      if (s.g[GOUT] >= cfg.queue) { setPath(b, E_BAD); for (int fc : {6, 3, 16}) for (auto& o : request(s, fc, false)) go(o.s, E_BAD); }
      if (s.g[GREF] < cfg.maxRef) for (int fc : badKinds) { setPath(b, E_BAD); for (auto& o : request(s, fc, true)) go(o.s, E_BAD); }
      if (cfg.reinit && !(cfg.markRe && s.g[GRE])) { setPath(b, E_REINIT); State t = s; Term rq = (Term)t.g[GREQ]; i64 off = t.g[GOFF]; dropReq(t); for (auto& o : init(t, true)) { o.s.g[GREQ] = rq; o.s.g[GOFF] = off; go(o.s, E_REINIT); } }
    }
    count("abstract states", bs.size()); count("progress steps", liveRuns); if (cfg.markRe) reportReinit(); }
  std::vector<State> respSplit(State& t) { std::vector<State> r; t.chain = nullptr; r.push_back(t); return r; }
  void dropReq(State& s) { std::vector<u64> key; for (int i = 0; i < NG; i++) if (i != GREQ && i != GTX && i != G15 && i != G35 && i != GFE) s.g[i] = 0; clean(s, key); s.f = Facts(new FactTab); }
  // one request through its whole life, all quantities
  void respond(State u, int fc, bool lean) {                        // the transmission is over: every valid response, and every response that is right in all but its byte count or length
    auto arrive = [&](State& q, auto&& f) { for (auto& e : notify(q, E_T15)) for (auto& g : poll(e.s, false)) for (auto& h : notify(g.s, E_T35)) { auto z = poll(h.s, false); for (auto& x : z) f(x); } };
    if (!rx(u, E_RX)) { viol(u, "C15", "reception is enabled for the response", "no reception buffer is enabled after the request was sent"); if (u.g[GEARLY]) viol(u, "C23", "early completion is not lost", "after a completion that came before send returned no reception buffer is enabled"); return; }
    int k = cur(u); auto each = [&](State& v, bool one, auto&& f) { Iv iv = ivl(v, Q[k]); for (i64 n = std::max<i64>(iv.lo, one && !lean ? 0 : cfg.qlo); n <= std::min<i64>(iv.hi, one && !lean ? iv.hi : cfg.qhi); n++) { State q = v; q.chain = nullptr; if (assume(q, mkEq(Q[k], C(n)), true)) f(q, n); if (one) break; } };
    for (int exc = 0; exc < 2; exc++) { State v = u; if ((exc && !cfg.first) || !assumeValid(v, exc)) continue; std::vector<State> qs;
      if (fc <= 4) each(v, exc || lean, [&](State& q, i64) { if (assumeCrc(q)) qs.push_back(std::move(q)); }); else qs.push_back(v);
      for (auto& q : qs) arrive(q, [&](Out& h) { std::vector<Out> zz{h}; for (int n = 0; n < 3 && zz[0].s.g[GOUT]; n++) { auto nx = poll(zz[0].s, false); if (nx.empty()) break; zz = nx; } if (zz[0].s.g[GOUT]) mustAccept(zz[0].s, "it leads to no outcome"); count("responses analysed"); }); }
    if (fc > 4 || lean) return;
    State v = u; if (!assume(v, mkEq(F[0], S[k]), true) || !assume(v, mkEq(F[1], C(fc)), true)) return;
    each(v, false, [&](State& q, i64 n) { for (int c = 0; c < 2; c++) { State w = q; w.chain = nullptr; if (!assume(w, c ? mkEq(F[2], norm(w, respCount(fc, k))) : mkEq(L, norm(w, respLen(fc, k))), false)) continue; arrive(w, [&](Out&) { count("mismatching responses analysed"); }); } }); }
  // damaged responses: the frame is repeated until a communication error is reported, for every request of the call
  void damaged(State u0, int fc) { const std::string pre = "init, request call, poll, transmission";
    struct W { State s; int n; std::string p; }; std::vector<W> ws; std::set<std::vector<u64>> wk; auto add1 = [&](const State& s, int n, const std::string& p) { State c = s; std::vector<u64> k; clean(c, k); c.chain = nullptr; if (wk.insert(k).second) ws.push_back({c, n, p}); };
    add1(u0, 0, pre); std::map<i64, bool> edge;
    for (size_t q = 0; q < ws.size(); q++) { if (ws.size() > 4000) throw Undecided{"damaged responses lead to too many different states"}; W w = ws[q]; int k = cur(w.s); Iv iv = ivl(w.s, Q[k]); i64 lim = qmax(fc), lo = fc >= 15 ? iv.lo : 1; bool full = fc <= 6 || iv.lo != iv.hi || lo <= 2 || lo >= lim - 1;
      if (w.n && full && fc > 2) { path = {w.p, "response bytes arrive", "T1.5 notification", "poll", "T3.5 notification", "poll"}; respond(w.s, fc, true); count("responses to repeated requests"); }
      if (w.n >= (full ? cfg.retries + 1 : 1)) continue;
      for (int how = 0; how < (full ? 3 : 2); how++) { State v = w.s; path = {w.p, how == 0 ? "response with a wrong checksum" : how == 1 ? "response damaged by a frame error" : "response with a wrong checksum that is polled after T1.5", "T1.5 notification", "T3.5 notification", "polls"}; std::string np = w.p + ", " + path[1] + ", repeated transmission";
        if (!rx(v, E_RX)) continue; if (!assume(v, mkEq(F[0], S[k]), true)) continue; if (how != 1 && !assume(v, crcW(), false, false)) continue; std::vector<State> vs{v};
        auto each = [&](auto&& f) { std::vector<State> r; for (auto& x : vs) for (auto& o : f(x)) { o.s.chain = nullptr; r.push_back(o.s); } if (r.size() > 1) { std::set<std::vector<u64>> ks; std::vector<State> d; for (auto& x : r) { std::vector<u64> kk; State c = x; clean(c, kk); if (ks.insert(kk).second) d.push_back(x); } r.swap(d); } vs.swap(r); };
        if (how == 1) each([&](State& x) { return notify(x, E_FE); });
        each([&](State& x) { return notify(x, E_T15); }); if (how == 2) each([&](State& x) { return poll(x, false); });
        each([&](State& x) { return x.g[GRX] == R_S ? notify(x, E_T35) : std::vector<Out>{{x, 0}}; }); count("damaged responses analysed");
        for (int n = 0; n < 4 && !vs.empty(); n++) { each([&](State& x) { return poll(x, false); }); std::vector<State> rest;
          for (auto& x : vs) { if (!x.g[GOUT] || x.g[GOUTC]) continue; if (!x.g[GTXS]) { rest.push_back(x); continue; } count("repeated transmissions analysed"); for (auto& d : notify(x, E_TXD)) for (auto& y : poll(d.s, false)) add1(y.s, w.n + 1, np); } vs.swap(rest); } } } }
  void single(int fc) {
    State s0 = I.init; auto a = init(s0, false); if (a.empty()) throw Undecided{"initialisation never returns"}; discover(a[0].s); R.viol.clear(); seen.clear(); reV.clear(); absTimer = false; cfg.qcap = 0; cfg.nested = false;
    for (auto& o : init(s0, false)) { State s = o.s; std::vector<u64> key; clean(s, key); path = {"init", "request call"}; std::vector<Out> rq = requestCall(s, fc, cur(s), false);
      for (auto& x : rq) { State t = x.s; path = {"init", "request call", "poll"}; if (!t.g[GOUT]) { for (auto& y : poll(t, false)) { if (y.s.g[GTXS]) viol(y.s, "C12", "refused calls have no effect", "a refused request is transmitted"); if (cfg.first) { count("refused calls analysed"); probePool(y.s); } } continue; }
        t.chain = nullptr; for (auto& y : poll(t, false)) { bool early = y.s.g[GEARLY]; if (!y.s.g[GTXS] && !early) { viol(y.s, "C11", "accepted requests are transmitted", "an accepted request is not transmitted by the next poll of an idle master"); continue; } count("requests transmitted"); y.s.chain = nullptr;
          if (early) { if (!cfg.first) continue; path = {"init", "request call", "poll (tx-done notification before send returns)", "poll", "response bytes arrive", "T1.5 notification", "poll", "T3.5 notification", "poll"}; count("early completions analysed"); for (auto& w : poll(y.s, false)) respond(w.s, fc, true); continue; }
          path = {"init", "request call", "poll", "poll while transmitting"}; std::vector<State> ps; for (auto& z : poll(y.s, false)) { z.s.chain = nullptr; if (z.s.g[GTXS]) ps.push_back(z.s); } if (ps.size() > 1) { std::set<std::vector<u64>> ks; std::vector<State> d; for (auto& z : ps) { std::vector<u64> k; State c = z; clean(c, k); if (ks.insert(k).second) d.push_back(z); } ps.swap(d); }
          path = {"init", "request call", "poll", "poll while transmitting", "tx-done notification", "poll", "response bytes arrive", "T1.5 notification", "poll", "T3.5 notification", "poll"};
          for (auto& z : ps) for (auto& d : notify(z, E_TXD)) for (auto& w : poll(d.s, false)) { damaged(w.s, fc); path = {"init", "request call", "poll", "poll while transmitting", "tx-done notification", "poll", "response bytes arrive", "T1.5 notification", "poll", "T3.5 notification", "poll"}; respond(w.s, fc, false); } } } } }
  // exact time: no response, tick by tick
  // The request in `start` waits for its response since `elapsed` timer ticks: every way of polling or not polling after each further tick.
  std::set<std::vector<u64>> measured;
bool refusedBefore = false;
  void late(State& s, const char* rule, const std::string& m) { viol(s, "C19", rule, m); if (refusedBefore) viol(s, "C12", "refused calls have no effect", m + ", after a refused request call"); }
  void measure(State start, i64 elapsed, const std::string& pre, std::vector<State>* after) {
    { std::vector<u64> k; State c = start; clean(c, k); k.push_back(elapsed); if (!measured.insert(k).second) return; } count("waiting situations analysed"); start.chain = nullptr;
    std::vector<State> us{start}; i64 lim = cfg.timeout; bool never = true, cut = false; std::set<std::vector<u64>> ends;
    for (i64 n = elapsed; n <= lim + 40; n++) { path = {pre, std::to_string(n) + " timer ticks since the transmission", "poll"};
      for (size_t i = 0; i < us.size(); i++) { State u = us[i]; auto p = poll(u, false); bool allT = !p.empty(), anyT = false;
        for (auto& z : p) { bool t = z.s.g[GTIMED]; anyT |= t; allT &= t; if (t) { if (after && after->size() < 8) { State c = z.s; std::vector<u64> k; clean(c, k); if (ends.insert(k).second) { c.chain = nullptr; after->push_back(c); } } continue; } State c = z.s; std::vector<u64> k; clean(c, k); bool known = false; for (auto& q : us) { std::vector<u64> k2; State d = q; clean(d, k2); if (k2 == k) { known = true; break; } } if (!known) { if (us.size() >= 24) cut = true; else { State q = z.s; q.chain = nullptr; us.push_back(std::move(q)); } } }
        if (anyT) never = false; if (anyT && n < lim - 1) { late(p[0].s, "no early timeout", "a timeout is reported after only " + std::to_string(n) + " timer ticks of the configured " + std::to_string(lim)); return; } if (!allT && n >= lim && i < 24) { bool settled = us.size() > i + 1; if (!settled || n >= lim + 8) { late(u, "unanswered requests time out", "no timeout is reported by a poll " + std::to_string(n) + " timer ticks after the transmission (configured: " + std::to_string(lim) + ")"); return; } } }
      count("poll times analysed"); count("poll states analysed", us.size()); std::vector<State> nx; for (auto& u : us) { auto t = tick(u); if (t.size() != 1) throw Undecided{"the timer tick is not deterministic"}; t[0].s.chain = nullptr; nx.push_back(t[0].s); }
      if (nx.size() > 1) { std::vector<State> d; std::set<std::vector<u64>> ks; for (auto& u : nx) { std::vector<u64> k; State c = u; clean(c, k); if (ks.insert(k).second) d.push_back(u); } nx.swap(d); if (nx.size() > 16) { nx.erase(nx.begin() + 8, nx.end() - 8); cut = true; } } us.swap(nx); }
    if (never) late(us[0], "unanswered requests time out", "no timeout is ever reported"); else if (cut) throw Undecided{"polls while waiting lead to too many different states"}; }
  std::vector<State> ticks(State s, i64 n, bool polled) { std::vector<State> v{s}; for (i64 i = 0; i < n; i++) { std::vector<State> w; for (auto& x : v) { auto t = tick(x); for (auto& y : t) { y.s.chain = nullptr; if (!polled) { w.push_back(y.s); continue; } for (auto& z : poll(y.s, false)) { z.s.chain = nullptr; w.push_back(z.s); } } } if (w.size() > 1) { std::vector<State> d; std::set<std::vector<u64>> ks; for (auto& u : w) { std::vector<u64> k; State c = u; clean(c, k); if (ks.insert(k).second) d.push_back(u); } w.swap(d); } if (w.size() > 8) throw Undecided{"waiting leads to too many different states"}; v.swap(w); } return v; }
  // from an idle master: one request, transmitted for `dur` ticks -> states that wait for the response
  std::vector<State> started(State idle, i64 dur, int fc = 6) { std::vector<State> r; for (auto& x : request(idle, fc, false)) if (x.s.g[GOUT]) for (auto& y : poll(x.s, false)) if (y.s.g[GTXS]) for (auto& t : ticks(y.s, dur, true)) if (t.g[GTXS]) for (auto& d : notify(t, E_TXD)) for (auto& w : poll(d.s, false)) if (!w.s.g[GTIMED]) { w.s.chain = nullptr; r.push_back(w.s); } return r; }
  void timing() {
    State s0 = I.init; auto a = init(s0, false); discover(a[0].s); R.viol.clear(); seen.clear(); reV.clear(); absTimer = false; cfg.early = false; cfg.nested = false; cfg.noise = false; i64 lim = cfg.timeout; std::vector<State> idle; const std::string one = "request call, poll, transmission";
    for (auto& o : init(s0, false)) { for (i64 d : {(i64)0, (i64)1, lim + 1}) for (auto& w : started(o.s, d)) measure(w, 0, one + " for " + std::to_string(d) + " timer ticks, poll", d == 0 ? &idle : nullptr);
      for (int fc : {16, 15, 1, 3, 5}) for (auto& w : started(o.s, 0, fc)) { measure(w, 0, "request call of function code " + std::to_string(fc) + ", poll, transmission, poll", nullptr); count("request kinds timed"); }
      for (auto& w0 : started(o.s, 0)) for (i64 n : {(i64)1, lim - 2}) for (auto& w : ticks(w0, n, true)) { if (w.g[GTIMED] || !w.g[GOUT]) continue;   // calls while a response is awaited leave its time alone
        for (int fc : {1, 3, 6, 15, 16}) for (int bad = 0; bad < 2; bad++) { if (fc == 6 && bad) continue; State v = w; i64 out = v.g[GOUT]; for (auto& x : request(v, fc, bad)) { bool ref = x.s.g[GOUT] == out; refusedBefore = ref; x.s.chain = nullptr; measure(x.s, n, one + ", " + std::to_string(n) + " timer ticks, " + (ref ? "a refused" : "another") + " request call", nullptr); refusedBefore = false; if (ref) count("refused calls while waiting"); } }
        { std::vector<State> vs{w}; for (int q = 0; q <= cfg.queue; q++) { std::vector<State> nx; for (auto& v : vs) for (auto& x : request(v, 6, false)) { if (x.s.g[GOUT] > v.g[GOUT]) nx.push_back(x.s); else { refusedBefore = true; State y = x.s; y.chain = nullptr; measure(y, n, one + ", " + std::to_string(n) + " timer ticks, request calls until one is refused", nullptr); refusedBefore = false; count("refused calls while waiting"); } } if (nx.size() > 2) nx.resize(2); vs.swap(nx); } } }
      struct Wait { State s; i64 at; int level; std::string pre; }; std::vector<Wait> ws; std::set<std::vector<u64>> wk; auto wait = [&](State s, i64 at, int level, const std::string& pre) { s.chain = nullptr; std::vector<u64> k; State c = s; clean(c, k); k.push_back(at); if (wk.insert(k).second) ws.push_back({c, at, level, pre}); };
      for (auto& w0 : started(o.s, 0)) wait(w0, 0, 0, one);
      for (size_t q = 0; q < ws.size(); q++) { if (ws.size() > 400) throw Undecided{"frames while waiting lead to too many different states"}; Wait w0 = ws[q]; std::set<i64> ns{w0.at, w0.at + 1}; if (!w0.level || lim < 20) ns.insert(lim - 2);
      for (i64 n : ns) if (n >= w0.at && n < lim - 1) for (auto& w : ticks(w0.s, n - w0.at, true)) { if (w.g[GTIMED] || !w.g[GOUT]) continue; State v = w; if (!rx(v, E_RX)) continue; count("frames while waiting"); path = {w0.pre, std::to_string(n - w0.at) + " ticks", "response bytes arrive", "T1.5 notification", "poll", "T3.5 notification", "poll"}; std::string pre = w0.pre + ", any frame after " + std::to_string(n) + " timer ticks, poll"; std::set<std::vector<u64>> ks;
        for (auto& e : notify(v, E_T15)) for (auto& f : poll(e.s, false)) for (auto& g : notify(f.s, E_T35)) for (auto& h0 : poll(g.s, false)) { State h = h0.s; bool timed = h.g[GTIMED]; { std::vector<u64> k; State c = h; clean(c, k); if (!ks.insert(k).second) continue; h = c; } h.chain = nullptr;
          if (timed) { if (n < lim - 1) late(h, "no early timeout", "a frame that does not answer the request leads to a timeout report after only " + std::to_string(n) + " timer ticks of the configured " + std::to_string(lim)); continue; }
          if (!h.g[GOUT]) { idle.push_back(h); continue; } std::vector<State> hs{h}; if (!h.g[GTXS]) { hs.clear(); for (auto& z : poll(h, false)) { z.s.chain = nullptr; hs.push_back(z.s); } }
          for (auto& z : hs) { if (!z.g[GOUT]) { idle.push_back(z); continue; }
            if (z.g[GTXS]) { for (auto& d : notify(z, E_TXD)) for (auto& x : poll(d.s, false)) if (!x.s.g[GTIMED]) { measure(x.s, 0, pre + ", repeated transmission, poll", nullptr); if (x.s.g[GOUT] && w0.level < 5) wait(x.s, 0, w0.level + 1, pre + ", repeated transmission, poll"); } }
            else if (!z.g[GTIMED]) { measure(z, n, pre, nullptr); if (w0.level < 5) wait(z, n, w0.level + 1, pre); }
            else if (n < lim - 1) late(z, "no early timeout", "a frame that does not answer the request leads to a timeout report after only " + std::to_string(n) + " timer ticks of the configured " + std::to_string(lim)); } } } } }
    std::set<std::vector<u64>> ks; size_t k0 = 0; for (auto& s : idle) { std::vector<u64> k; State c = s; clean(c, k); if (!ks.insert(k).second) continue; if (++k0 > 24) throw Undecided{"too many different idle states after a request"}; count("finished requests followed by another"); for (i64 m : {0, 1}) for (auto& t : ticks(c, m, true)) for (int fc : {6, 16, 3}) for (auto& w : started(t, 0, fc)) measure(w, 0, "an earlier finished request, " + std::to_string(m) + " timer ticks, request call, poll, transmission, poll", nullptr); } }
  void maskTimers(State& c) { for (auto& tc : timerCells) { const CellE* e = I.cellR(c, tc.first, tc.second); int sz = e->size; if (!sz || T.kind(e->t) == K::Ptr || T.kind(e->t) == K::Fn) continue; for (int i = 0; i < sz; i++) *I.cell(c, tc.first, tc.second + i) = CellE{T0, (u8)sz, (u8)i, 0}; } }
};
void coverage(Interp& I, Result& R) { u64 tot = 0, vis = 0; for (auto& f : I.m.funcs) if (I.fnSeen[f.id] && !f.decl) { R.functions.insert(f.name); tot += f.blocks.size(); for (u8 b : I.blkSeen[f.id]) vis += b; } R.count["basic blocks in reached functions"] += tot; R.count["basic blocks analysed"] += vis; R.count["abstract instructions"] += I.steps; R.count["joins"] += I.mergeCount; }
}
void masterProtocol(Module& m, Result& R, const MasterCfg& c) { Interp I(m); try { MasterEnv E(I, R, c); E.explore(); } catch (Undecided& u) { R.undecided = u.why; } coverage(I, R); }
void masterSingle(Module& m, Result& R, const MasterCfg& c, int fc) { Interp I(m); try { MasterEnv E(I, R, c); E.single(fc); } catch (Undecided& u) { R.undecided = u.why; } coverage(I, R); }
void masterTiming(Module& m, Result& R, const MasterCfg& c) { Interp I(m); try { MasterEnv E(I, R, c); E.timing(); } catch (Undecided& u) { R.undecided = u.why; } coverage(I, R); }
std::vector<int> masterNotifications(Module& m) { Result R; Interp I(m); MasterCfg c; MasterEnv E(I, R, c); return E.notifications(); }
