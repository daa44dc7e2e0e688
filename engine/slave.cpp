// Slave analyses: protocol exploration (all event orders) and request execution against the Modbus rules.
#include "checks.h"
#include <algorithm>
enum { GPH, GREP, GTX, G15, G35, GFE, GREQ, GFES, GPOLL, GPRE, GEARLY, GRE, GINIT, GCB, GTXP, GTXL, GENA, GDRVI, GCOPY, GECHO };
enum Ph { P_OFF, P_LISTEN, P_RX, P_S, P_D, P_TX, P_DONE };
static const char* phName[] = {"not initialised", "listening", "receiving", "after 1.5 char silence", "after 3.5 char silence", "transmitting reply", "reply sent"};
enum Ev { E_RX, E_T15, E_T35, E_FE, E_TXD, E_POLL, E_REINIT, E_ECHO };
static const char* evName[] = {"frame bytes arrive", "T1.5 notification", "T3.5 notification", "frame-error notification", "tx-done notification", "poll", "init again", "another frame is heard while the reply is transmitted"};
static const i64 LOGW = 1;

struct SlaveEnv : BaseEnv {
  Term ID, L, F[256], baud, par, frameTup = 0; int maxPre; i64 qcap = 2; std::map<int, int> tab; std::set<std::pair<int, i64>> flagCells; bool recFlags = false; bool early = true; u64 wrChecks = 0;
  struct Tb { int region; i64 n; };
  SlaveEnv(Interp& i, Result& r, int mp) : BaseEnv(i, r), maxPre(mp) {
    memProp = "C01"; ID = mkSym("slave ID", 0, 255); L = mkSym("received length", 0, 255); baud = mkSym("baud", 0, ((i64)1 << 31) - 1); par = mkSym("parity", 0, 2); for (int k = 0; k < 256; k++) F[k] = mkSym("rx[" + std::to_string(k) + "]", 0, 255); frameTup = mkTuple(std::vector<Term>(F, F + 255)); frameT = frameTup; frameLen = L; }
  // ---- tables: observed through the registration functions
  std::vector<std::pair<int, Term>> stores;
  void tableStore(Interp&, State& s, i64 region, Term idx, Term val) override {
    if (s.g[GINIT] == 3) { s.log = logAdd(s.log, 9, {region, (i64)norm(s, idx), (i64)norm(s, val)}); return; }
    if (s.g[GPH] == P_OFF && s.g[GINIT] == 2) { stores.push_back({(int)region, idx}); return; }
    viol(s, "C27", "tables change only by registration", "registration table " + I.regions[region].name + " is modified outside registration"); }
  void findTables() {
    for (auto& g : I.m.globals) if (g.ptrArray && !g.constant && !g.decl) { bool z = true; for (auto& c : g.init) if (c.k != InitCell::Null) z = false; if (z) I.makeTable(g.id); }
    const char* api[4] = {"register_app_data_to_modbus_slave_coils_table", "register_app_data_to_modbus_slave_din_table", "register_app_data_to_modbus_slave_hreg_table", "register_app_data_to_modbus_slave_inreg_table"};
    std::set<int> used; for (int k = 0; k < 4; k++) { stores.clear(); State s = I.init; s.g[GINIT] = 2; Term a = mkSym("registered address", 0, 65535); assumeRange(s, a, 0, 0); auto keep = R.viol; callFn(api[k], {a, mkPtr(appVar(), T0)}, s); R.viol = keep; if (stores.empty()) throw Undecided{std::string("registration function ") + api[k] + " stores into no table"}; tab[k] = stores[0].first; used.insert(stores[0].first); }
    for (auto& r : I.regions) if (r.kind == RK::Table && !used.count(&r - &I.regions[0])) r.kind = RK::Glob;
    seen.clear(); stores.clear(); }
  int appReg = -1; int appVar() { if (appReg < 0) appReg = I.addExtRegion("application variable", C(8), 1); return appReg; }
  i64 tabN(int k) { return I.regions[tab[k]].size / I.m.ptrSize; }

  // ---- driver
  void drv(Interp&, State& s, int side, int slot, const std::vector<Term>& a, std::vector<Out>& outs) override {
    if (side != 0) viol(s, "C24", "own driver interface", "slave code calls the master's driver interface");
    if (s.g[GCB]) viol(s, "C22", "notifications only signal", "a notification calls the driver");
    switch (slot) {
      case S_INIT: s.g[GDRVI]++; if (!provenEq(s, a[0], baud) || !provenEq(s, a[1], par)) viol(s, "C26", "driver gets the configured line parameters", "driver init called with baud " + show(norm(s, a[0])) + ", parity " + show(norm(s, a[1]))); if (s.g[GDRVI] > 1 || !s.g[GINIT]) viol(s, "C26", "driver initialised once", "driver init called again"); outs.push_back({s, 0}); return;
      case S_SUBTX: s.g[GTX] = norm(s, a[0]); outs.push_back({s, 0}); return; case S_SUB15: s.g[G15] = norm(s, a[0]); outs.push_back({s, 0}); return; case S_SUB35: s.g[G35] = norm(s, a[0]); outs.push_back({s, 0}); return; case S_SUBFE: s.g[GFE] = norm(s, a[0]); outs.push_back({s, 0}); return;
      case S_ENABLE: {
        if (!s.g[GTX] || !s.g[G15] || !s.g[G35] || !s.g[GFE] || !s.g[GDRVI]) viol(s, "C26", "reception enabled only when ready", "reception is enabled before the driver is initialised and all four notifications are subscribed");
        Term p = norm(s, a[0]); if (T.kind(p) == K::Null) { viol(s, "C01", "memory safety", "reception enabled on a null pointer"); viol(s, "C26", "reception enabled only when ready", "reception is enabled on a null buffer pointer"); return; }
        if (T.kind(p) != K::Ptr || ptrReg(p) >= I.nstatic || I.regions[ptrReg(p)].kind != RK::Glob) viol(s, "C26", "reception buffer belongs to the library", "reception enabled on " + show(p)); else { Term d = load(s, p, 0, 8, true); if (T.kind(d) != K::Ptr || ptrReg(d) >= I.nstatic) viol(s, "C26", "reception buffer belongs to the library", "the reception descriptor has no buffer (" + show(d) + ") when reception is enabled"); else if (I.regSize(s, ptrReg(d)) - cval(ptrOff(d)) < 256) viol(s, "C01", "reception buffer holds a whole frame", "reception buffer " + I.regName(s, ptrReg(d)) + " has less than 256 bytes"); }
        s.g[GREQ] = p; s.g[GENA] = 1; outs.push_back({s, 0}); return; }
      case S_SEND: doSend(s, a[0], a[1], outs); return;
      default: outs.push_back({s, 0}); return; } }
  void access(Interp&, State& s, i64 r, Term off, i64 size, bool write) override {
    if (s.g[GINIT] == 3 && write && r < I.nstatic && I.regions[r].kind == RK::Glob) viol(s, "C27", "registration changes nothing else", "registration writes the variable " + I.regions[r].name);
    if (recFlags && r < I.nstatic && I.regions[r].kind == RK::Glob && isC(off)) for (i64 i = 0; i < size; i++) flagCells.insert({(int)r, cval(off) + i});
    if (s.g[GCB] && r < I.nstatic && T.kind((Term)s.g[GREQ]) == K::Ptr && ptrReg((Term)s.g[GREQ]) == r && isC(ptrOff((Term)s.g[GREQ]))) { i64 b = cval(ptrOff((Term)s.g[GREQ])); if (!isC(off) || (cval(off) + size > b && cval(off) < b + 9)) viol(s, "C22", "notifications only signal", "a notification accesses the frame descriptor (buffer pointer or length) in " + I.regions[r].name); }
    if (s.g[GCB] && r < I.nstatic) { auto& g = I.regions[r]; if (g.bytes || g.kind == RK::Table || g.kind == RK::Ext) viol(s, "C22", "notifications only signal", "a notification accesses " + g.name); }
    if (write && s.g[GINIT] == 1 && s.g[GENA] && r < I.nstatic && I.regions[r].kind == RK::Glob && isC(off) && flagCells.count({(int)r, cval(off)})) viol(s, "C26", "nothing is reset after reception is enabled", "initialisation overwrites the notification flag " + I.regions[r].name + " after reception has been enabled (an event already signalled is lost)");
    if (write && s.g[GPH] == P_TX && T.kind((Term)s.g[GTXP]) == K::Ptr && ptrReg((Term)s.g[GTXP]) == r && isC(off)) { i64 b = cval(ptrOff((Term)s.g[GTXP])); if (cval(off) + size > b && cval(off) < b + s.g[GTXL]) viol(s, "C06", "a reply is not changed while it is transmitted", "byte " + std::to_string(cval(off) - b) + " of the reply buffer is modified before transmission completed"); } }
  bool preempt(Interp&, State& s, i64 r, i64 off, i64, bool, std::vector<State>& alts) override {
    if (!s.g[GPOLL] || s.g[GCB] || s.g[GPRE] >= maxPre || !flagCells.count({(int)r, off})) return false;
    for (int e : enabled(s)) { State t = s; t.g[GPRE]++; t.g[GPEV] = (e + 1) * 1000000 + I.here().line; for (auto& o : notify(t, e)) alts.push_back(std::move(o.s)); } count("preemption points"); return !alts.empty(); }
  std::string preName(int e) override { return evName[e]; } bool afterReinit(const State& s) override { return s.g[GRE]; }
  std::vector<int> enabled(const State& s) { switch (s.g[GPH]) { case P_RX: return {E_T15, E_FE}; case P_S: return {E_T35, E_FE}; case P_TX: return {E_TXD}; default: return {}; } }
  std::vector<Out> notify(State s, int e) {
    Term fn = (Term)s.g[e == E_T15 ? G15 : e == E_T35 ? G35 : e == E_FE ? GFE : GTX];
    switch (e) { case E_T15: s.g[GPH] = P_S; break; case E_T35: s.g[GPH] = P_D; break; case E_FE: s.g[GFES] = 1; s.g[GPH] = P_RX; break; case E_TXD: s.g[GPH] = P_DONE; break; }
    if (!fn) { return {{s, 0}}; }
    s.g[GCB]++; auto o = callTerm(fn, {}, s); for (auto& x : o) { x.s.g[GCB]--; std::string w; if (takesBack(I, s, x.s, e == E_T15 ? G15 : e == E_T35 ? G35 : e == E_FE ? GFE : GTX, G15, G35, w)) viol(x.s, "C22", "notifications only signal", "a notification takes back what another notification has recorded in " + w); } count("notifications analysed"); return o; }
  // ---- checksum of the received frame
  // byte-wise comparison of the trailing checksum with the one of the preceding bytes
  std::vector<Term> crcPair(i64 n) { Term c, lo, hi; if (n < 0) { c = mkCrc(1, frameTup, 0, addc(L, -2)); lo = mkSel(frameTup, addc(L, -2)); hi = mkSel(frameTup, addc(L, -1)); } else { if (n < 2) return {}; c = mkCrc(0, mkTuple(std::vector<Term>(F, F + n - 2)), 0, 0); lo = F[n - 2]; hi = F[n - 1]; } return {mkEq(mkSlice(c, 0, 8), lo), mkEq(mkSlice(c, 8, 8), hi)}; }
  bool crcPairIs(State& s, bool want, i64 n) override { auto p = crcPair(n); if (p.empty()) return false; bool a = proven(s, want ? p[0] : mkNot(p[0])), b = proven(s, want ? p[1] : mkNot(p[1])); return want ? a && b : a || b; }
  bool crcIs(State& s, bool want) {
    Term a = mkCrc(1, frameTup, 0, L); if (proven(s, want ? mkEq(a, T0) : mkNot(mkEq(a, T0)))) return true;
    if (R.count.count("trailing checksum bytes read") && crcPairIs(s, want, -1)) return true; Iv v = ivl(s, L); if (v.lo == v.hi) { for (Term c : crcForms(v.lo)) if (proven(s, want ? c : mkNot(c))) return true; return crcPairIs(s, want, v.lo); } return false; }
  std::vector<Term> crcForms(i64 n) { std::vector<Term> r; if (n < 2) return r; std::vector<Term> b(F, F + n); r.push_back(mkEq(mkCrc(0, mkTuple(b), 0, 0), T0)); Term hi = F[n - 1], lo = F[n - 2]; b.resize(n - 2); r.push_back(mkEq(mkCrc(0, mkTuple(b), 0, 0), add(lo, mulc(hi, 256)))); return r; }
  bool assumeCrc(State& s) { if (!assume(s, mkEq(mkCrc(1, frameTup, 0, L), T0), true, false)) return false; Iv v = ivl(s, L); if (v.lo != v.hi && R.count.count("trailing checksum bytes read")) for (Term c : crcPair(-1)) if (!assume(s, c, true, false)) return false; if (v.lo == v.hi) { for (Term c : crcForms(v.lo)) if (!assume(s, c, true, false)) return false; for (Term c : crcPair(v.lo)) if (!assume(s, c, true, false)) return false; } return true; }
  // ---- rules
  Term A() { return add(mulc(F[2], 256), F[3]); } Term Q() { return add(mulc(F[4], 256), F[5]); }
  static int tbl(int fc) { switch (fc) { case 1: case 5: case 15: return 0; case 2: return 1; case 3: case 6: case 16: return 2; default: return 3; } }
  static i64 qmax(int fc) { switch (fc) { case 1: case 2: return 2000; case 3: case 4: return 125; case 15: return 1968; default: return 123; } }
  Term layout(int fc) { return fc >= 15 ? addc(F[6], 9) : C(8); }
  Term qty(int fc) { return fc == 5 || fc == 6 ? T1 : Q(); }
  Term expCount(int fc, Term q) { return fc == 16 ? mulc(q, 2) : mkSlice(addc(q, 7), 3, 20); }
  // outcome conditions in priority order; each returns the states in which the outcome is the prescribed one
  enum Oc { O_VALUE, O_RANGE, O_COUNT, O_OK };
  std::vector<State> outcome(const State& s0, int fc, int oc) {
    std::vector<State> r; auto with = [&](State s, std::initializer_list<std::pair<Term, bool>> cs) { for (auto& c : cs) if (!assume(s, c.first, c.second, true)) return; r.push_back(std::move(s)); };
    if (fc == 6 && oc == O_VALUE) return r; if (fc < 15 && oc == O_COUNT) return r;
    std::vector<State> good; auto keep = [&] { good.swap(r); r.clear(); };
    if (fc == 5) { with(s0, {{mkEq(Q(), T0), true}}); with(s0, {{mkEq(Q(), C(0xFF00)), true}}); keep(); if (oc == O_VALUE) { with(s0, {{mkEq(Q(), T0), false}, {mkEq(Q(), C(0xFF00)), false}}); return r; } }
    else if (fc == 6) good.push_back(s0);
    else { if (oc == O_VALUE) { with(s0, {{mkLe(Q(), T0), true}}); with(s0, {{mkLe(Q(), C(qmax(fc))), false}}); return r; } with(s0, {{mkLe(T1, Q()), true}, {mkLe(Q(), C(qmax(fc))), true}}); keep(); }
    Term inr = mkLe(add(A(), qty(fc)), C(tabN(tbl(fc))));
    for (auto& g : good) { if (oc == O_RANGE) with(g, {{inr, false}}); else with(g, {{inr, true}}); } if (oc == O_RANGE) return r;
    if (fc >= 15) { keep(); Term c = mkEq(F[6], expCount(fc, Q())); for (auto& g : good) if (feasible(g, c, oc == O_OK)) with(g, {{c, oc == O_OK}}); }
    return r; }
  bool infeasible(std::vector<State> v) { return v.empty(); }
  bool validFrame(State& s, std::string& why) {
    if (s.g[GPH] != P_D && !(s.g[GPH] == P_TX && s.g[GECHO] == 2)) { why = std::string("phase: ") + phName[s.g[GPH]]; return false; } if (s.g[GFES]) { why = "the driver reported a frame error"; return false; }
    if (!provenEq(s, F[0], ID)) { why = "the address byte is not known to be the slave's"; return false; } if (!crcIs(s, true)) { why = "the checksum is not known to be right"; return false; } if (!proven(s, mkLe(C(4), L))) { why = "the frame may be too short for an address, a function code and a checksum"; return false; } return true; }
  Term expVal(int fc, i64 i, State& s) { if (fc == 5) return mkEq(Q(), C(0xFF00)); if (fc == 6) return Q(); if (fc == 15) return mkSlice(F[(7 + i / 8) & 255], i % 8, 1); return add(mulc(F[(7 + 2 * i) & 255], 256), F[(8 + 2 * i) & 255]); }
  void splitFc(const State& s, const std::function<void(State&, int)>& f) { // known codes, then any other (0)
    static const int fcs[8] = {1, 2, 3, 4, 5, 6, 15, 16}; State o = s; bool ok = true; for (int k : fcs) { State t = s; if (assume(t, mkEq(F[1], C(k)), true)) f(t, k); if (ok) ok = assume(o, mkEq(F[1], C(k)), false); } if (ok) f(o, 0); }
  Term appLoad(Interp&, State& s, Term ptr, int size) override { if (s.g[GCB]) viol(s, "C22", "notifications only signal", "a notification reads application data"); i64 g = 0; for (auto* l = s.log; l; l = l->parent) if (l->kind == LOGW) g++; return mkApp(ptr, size, g); }
  void appStore(Interp&, State& s, Term ptr, int size, Term val) override {
    count("application write sites x paths"); 
    if (s.g[GCB]) viol(s, "C22", "notifications only signal", "a notification writes application data");
    if (s.g[GPH] == P_OFF || s.g[GINIT]) { viol(s, "C05", "only accepted writes change application data", "application data is written during initialisation"); return; }
    std::string why; if (!validFrame(s, why)) viol(s, "C07", "acts only on complete error-free frames for this slave", "application variable " + show(ptr) + " is written although " + why);
    splitFc(s, [&](State& t, int fc) {
      if (fc < 5) { viol(t, "C05", "only accepted writes change application data", "application variable " + show(ptr) + " is written while executing function code " + (fc ? std::to_string(fc) : std::string("(unsupported)"))); return; }
      if (!provenEq(t, L, layout(fc))) viol(t, "C09", "acts only on received bytes", "function code " + std::to_string(fc) + ": application data is written although the received length may differ from the " + (fc < 15 ? "8 bytes" : "9 + byte count bytes") + " of the request");
      for (int oc : {O_VALUE, O_RANGE, O_COUNT}) for (auto& u : outcome(t, fc, oc)) { viol(u, "C05", "a refused request changes nothing", "function code " + std::to_string(fc) + ": application data is written although the request must be refused (" + (oc == O_RANGE ? "address range" : oc == O_VALUE ? "quantity or value" : "byte count") + ")"); break; }
      Term ix = (Term)T.pay(ptr)[1]; if (T.pay(ptr)[0] != tab[tbl(fc)]) { viol(t, "C04", "writes go to the addressed variables", "function code " + std::to_string(fc) + " writes through table " + I.regions[T.pay(ptr)[0]].name); return; }
      for (auto& u : outcome(t, fc, O_OK)) { Term d = norm(u, sub(norm(u, ix), norm(u, A()))); Iv v = ivl(u, d); if (v.lo != v.hi) { viol(u, "C04", "writes go to the addressed variables", "write to table index " + show(norm(u, ix)) + " for start address " + show(norm(u, A()))); continue; }
        if (v.lo < 0 || !proven(u, mkLe(C(v.lo + 1), qty(fc)))) { viol(u, "C04", "no other variable changes", "function code " + std::to_string(fc) + " writes the variable at start address " + (v.lo < 0 ? "" : "+") + std::to_string(v.lo) + ", outside the requested range"); continue; }
        if (!provenEq(u, val, expVal(fc, v.lo, u))) viol(u, "C04", "the requested value is stored", "function code " + std::to_string(fc) + ": value stored for object " + std::to_string(v.lo) + " is " + show(norm(u, val)) + ", the request carries " + show(norm(u, expVal(fc, v.lo, u)))); wrChecks++; } });
    Iv d = ivl(s, sub(norm(s, (Term)T.pay(ptr)[1]), norm(s, A()))); s.log = logAdd(s.log, LOGW, {(i64)ptr, (i64)val, d.lo == d.hi ? (i64)C(d.lo) : (i64)ptr}); }
  bool hasNull(State& s, int fc) {                                  // an unregistered variable inside the requested range
    bool found = false; s.f->sub.each([&](Term k, const Term& v) { if (found || T.kind(k) != K::Ind || T.pay(k)[0] != CNULL || !isC(v) || cval(v) != 1) return; Term c = (Term)T.pay(k)[1]; if (T.kind(c) != K::Cell || T.pay(c)[0] != tab[tbl(fc)]) return; Term d = sub(norm(s, (Term)T.pay(c)[1]), norm(s, A())); if (proven(s, mkLe(T0, d)) && proven(s, mkLe(addc(d, 1), qty(fc)))) found = true; });
    return found; }
  void doSend(State& s, Term ptr, Term len, std::vector<Out>& outs) {
    count("replies analysed"); std::string why;
    if (s.g[GPH] == P_TX && s.g[GECHO]) { const char* m = "a frame heard while the reply is still transmitted is answered: a second transmission is started before the driver has reported the first one complete"; viol(s, "C08", "one reply at a time", m); viol(s, "C06", "a reply is sent whole", m); outs.push_back({s, 0}); return; }
    if (s.g[GREP]) viol(s, "C08", "one reply per frame", "a second reply is transmitted for the same frame");
    if (!s.g[GPOLL] || s.g[GCB]) viol(s, "C22", "work happens in the poll", "the driver's send is called outside the poll");
    if (!validFrame(s, why)) viol(s, "C07", "acts only on complete error-free frames for this slave", "a reply is sent although " + why);
    else checkReply(s, ptr, len);
    s.g[GREP] = 1; s.g[GPH] = P_TX; s.g[GTXP] = norm(s, ptr); Iv v = ivl(s, len); s.g[GTXL] = v.hi; s.g[GEARLY] = 0;
    if (early) { State t = s; t.g[GEARLY] = 1; for (auto& o : notify(t, E_TXD)) outs.push_back({o.s, 0}); }
    outs.push_back({s, 0}); }
  void checkReply(State& s, Term ptr, Term len) {
    Iv v = ivl(s, len); if (v.lo < 5 || v.hi > 256) { viol(s, "C06", "reply length", "reply length may be " + std::to_string(v.lo < 5 ? v.lo : v.hi)); }
    for (i64 n = std::max<i64>(v.lo, 5); n <= std::min<i64>(v.hi, 256); n++) { State t = s; if (v.lo != v.hi && !assume(t, mkEq(len, C(n)), true)) continue;
      std::vector<Term> B; bool ok = true; for (i64 i = 0; i < n && ok; i++) { Term b = load(t, ptr, i, 1); if (b == TUndef) { viol(t, "C06", "reply bytes are defined", "reply byte " + std::to_string(i) + " of " + std::to_string(n) + " is not inside the reply buffer or was never written"); ok = false; } B.push_back(b); } if (!ok) continue;
      if (!provenEq(t, B[0], ID)) viol(t, "C06", "reply starts with the slave address", "first reply byte is " + show(norm(t, B[0])));
      std::vector<Term> body(B.begin(), B.end() - 2); Term crc = add(B[n - 2], mulc(B[n - 1], 256)); if (!provenEq(t, crc, mkCrc(0, mkTuple(body), 0, 0))) viol(t, "C06", "reply ends with the checksum of its bytes", "last two bytes of the " + std::to_string(n) + "-byte reply are " + show(norm(t, B[n - 2])) + ", " + show(norm(t, B[n - 1])));
      splitFc(t, [&](State& u, int fc) { checkBody(u, fc, n, B); }); } }
  void checkBody(State& s, int fc, i64 n, std::vector<Term>& B) {
    count("reply cases checked"); std::string f = fc ? "function code " + std::to_string(fc) : "unsupported function code";
    Term ex = mkOr(norm(s, F[1]), C(128), 8); bool isEx = provenEq(s, B[1], ex), isData = provenEq(s, B[1], F[1]);
    if (!fc) { // unsupported: exception 01, nothing else
      if (!isEx || n != 5) { viol(s, "C06", "reply carries the request's function code", f + ": reply function code byte " + show(norm(s, B[1])) + ", length " + std::to_string(n)); viol(s, "C02", "unsupported function code gives exception 01", f + " is not answered by an exception"); return; }
      if (!provenEq(s, B[2], T1)) viol(s, "C02", "unsupported function code gives exception 01", f + " answered with exception code " + show(norm(s, B[2]))); return; }
    if (!isEx && !isData) { viol(s, "C06", "reply carries the request's function code", f + ": reply function code byte is " + show(norm(s, B[1]))); return; }
    State w = s; bool wf = assume(w, mkEq(L, layout(fc)), true, true);      // well-formed frames
    if (isEx) {
      if (n != 5) { viol(s, "C06", "exception reply has 5 bytes", f + ": exception reply of " + std::to_string(n) + " bytes"); return; }
      if (!wf) return; Iv c = ivl(w, B[2]);
      for (i64 e = c.lo; e <= c.hi; e++) { State x = w; if (!assume(x, mkEq(B[2], C(e)), true)) continue;
        if (e < 1 || e > 4) { viol(x, "C02", "exception code", f + " refused with exception code " + std::to_string(e)); break; }
        if (e == 1) { viol(x, "C02", "exception code", "supported " + f + " refused with exception 01"); continue; }
        static const char* on[] = {"a bad quantity or coil value (03)", "a bad address range (02)", "a wrong byte count (03)", "no fault"};
        for (int oc = 0; oc < 4; oc++) { bool allowed = (oc == O_VALUE && e == 3) || (oc == O_RANGE && e == 2) || (oc == O_COUNT && e == 3); if (allowed) continue;
          for (auto& y : outcome(x, fc, oc)) { if (oc == O_OK && e == 4 && hasNull(y, fc)) continue; viol(y, "C02", "exception code", f + " with " + on[oc] + " refused with exception 0" + std::to_string(e)); break; } } }
      return; }
    // data reply
    if (!provenEq(s, L, layout(fc))) { viol(s, "C09", "acts only on received bytes", f + ": data reply although the received length may differ from the " + (fc < 15 ? "8 bytes" : "9 + byte count bytes") + " of the request"); if (!wf) return; }
    static const char* bad[] = {"quantity or coil value is illegal (03 expected)", "address range is outside the table (02 expected)", "byte count contradicts the quantity (03 expected)"};
    for (int oc : {O_VALUE, O_RANGE, O_COUNT}) for (auto& y : outcome(w, fc, oc)) { viol(y, "C02", "bad requests are refused", f + " answered normally although its " + bad[oc]); break; }
    for (auto& y0 : outcome(w, fc, O_OK)) {
      Iv q = ivl(y0, qty(fc)); if (q.hi - q.lo > 2100) throw Undecided{"reply for an undetermined quantity"};
      for (i64 k = q.lo; k <= q.hi; k++) { State y = y0; if (q.lo != q.hi && !assume(y, mkEq(qty(fc), C(k)), true)) continue; count("data replies checked"); if (hasNull(y, fc)) viol(y, "C02", "unregistered addresses are refused", f + " answered normally although an address in the range has no registered variable (04 expected)");
        if (fc <= 4) { bool bits = fc <= 2; i64 bc = bits ? (k + 7) / 8 : 2 * k;
          if (n != bc + 5) { viol(y, "C06", "data reply length", f + ", quantity " + std::to_string(k) + ": reply of " + std::to_string(n) + " bytes instead of " + std::to_string(bc + 5)); continue; }
          if (!provenEq(y, B[2], C(bc))) { viol(y, "C03", "byte count is the data size", f + ", quantity " + std::to_string(k) + ": byte count " + show(norm(y, B[2]))); continue; }
          for (i64 j = 0; j < bc; j++) { Term e = T0; if (bits) { for (i64 b = 0; b < 8 && 8 * j + b < k; b++) e = add(e, mulc(mkApp(mkCell(tab[tbl(fc)], norm(y, addc(A(), 8 * j + b))), 1, 0), 1 << b)); } else { Term rg = mkApp(mkCell(tab[tbl(fc)], norm(y, addc(A(), j / 2))), 2, 0); e = mkSlice(rg, j % 2 ? 0 : 8, 8); }
            count("reply bytes compared"); if (norm(y, B[3 + j]) != norm(y, e) && !provenEq(y, B[3 + j], e)) { viol(y, "C03", "reply data are the requested values", f + ", quantity " + std::to_string(k) + ": data byte " + std::to_string(j) + " is " + show(norm(y, B[3 + j]), 3) + ", expected " + show(norm(y, e), 3)); break; } } }
        else {
          if (n != 8) { viol(y, "C06", "write reply has 8 bytes", f + ": reply of " + std::to_string(n) + " bytes"); continue; }
          for (int j = 2; j < 6; j++) if (!provenEq(y, B[j], F[j])) { viol(y, "C04", "the reply echoes the request", f + ": reply byte " + std::to_string(j) + " is " + show(norm(y, B[j]))); break; }
          std::vector<u8> got(k, 0); i64 cnt = 0; for (auto* l = s.log; l; l = l->parent) if (l->kind == LOGW) { Term ix = l->a[2]; i64 i = -1; if (isC(ix)) i = cval(ix); else { Iv d = ivl(y, sub(norm(y, (Term)T.pay((Term)l->a[0])[1]), norm(y, A()))); if (d.lo == d.hi) i = d.lo; } if (i >= 0 && i < k && !got[i]) { got[i] = 1; cnt++; } }
          if (cnt != k) { i64 miss = 0; while (miss < k && got[miss]) miss++; viol(y, "C04", "every requested value is stored before the reply", f + ", quantity " + std::to_string(k) + ": object " + std::to_string(miss) + " is confirmed but was not stored"); } } } } }

  // ---- exploration
  struct B { State s; int parent; int ev; int depth; }; std::vector<B> bs; struct KH { size_t operator()(const std::vector<u64>& k) const { u64 h = 1; for (u64 x : k) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32; } return h; } }; std::unordered_map<std::vector<u64>, int, KH> idx;
  void setPath(int b, int ev) { std::vector<int> e; if (ev >= 0) e.push_back(ev); for (int k = b; k >= 0 && bs[k].parent >= 0; k = bs[k].parent) e.push_back(bs[k].ev); path.clear(); for (size_t i = e.size(); i-- > 0;) path.push_back(evName[e[i]]); }
  std::vector<u8> frameMarks;
  void clean(State& s, std::vector<u64>& key) {
    if (frameMarks.empty()) { Term c = mkCrc(1, frameTup, 0, L); frameMarks.assign(c + 1, 0); for (Term t : std::vector<Term>(F, F + 256)) { if (t >= frameMarks.size()) frameMarks.resize(t + 1, 0); frameMarks[t] = 1; } if (L >= frameMarks.size()) frameMarks.resize(L + 1, 0); frameMarks[L] = frameMarks[c] = 1; }
    LiveSet live; live.insert(ID); i64 ph = s.g[GPH]; if (ph != P_TX) s.g[GECHO] = 0; bool fr = ph == P_RX || ph == P_S || ph == P_D || s.g[GECHO] == 2; if (fr) live.marks = &frameMarks; else { s.log = nullptr; s.g[GFES] = 0; }
    s.g[GPEV] = s.g[GPOLL] = s.g[GPRE] = s.g[GCB] = 0; if (ph != P_TX) { s.g[GTXP] = 0; s.g[GTXL] = 0; } if (ph == P_LISTEN) s.g[GREP] = 0;
    Term dp = s.g[GREQ] ? load(s, (Term)s.g[GREQ], 0, 8, true) : TUndef; i64 rr = T.kind(dp) == K::Ptr && isC(ptrOff(dp)) ? ptrReg(dp) : -1; i64 ro = rr >= 0 ? cval(ptrOff(dp)) : 0;
    canonical(s, live, fr ? std::vector<LiveRange>{{(int)rr, ro, ro + 256}} : std::vector<LiveRange>{}, key, "C01"); }
  int addB(State s, int parent, int ev) { std::vector<u64> key; clean(s, key); auto it = idx.find(key); if (it != idx.end()) return it->second; int id = bs.size(); idx[key] = id; bs.push_back({std::move(s), parent, ev, parent >= 0 ? bs[parent].depth + 1 : 0}); return id; }
  std::vector<Out> poll(State s, bool pre) { s.g[GPOLL] = 1; s.g[GPRE] = pre ? 0 : 99; s.chain = nullptr; auto o = callFn("check_modbus_request", {}, s); count("polls analysed"); return o; }
  std::vector<Out> init(State s, bool again) {
    for (int k : {GTX, G15, G35, GFE, GREQ, GENA, GDRVI, GREP, GFES, GEARLY}) s.g[k] = 0; s.g[GPH] = P_OFF; s.g[GINIT] = 1; s.g[GRE] = again; s.chain = nullptr;
    auto o = callFn("modbus_slave_init", {C(0), baud, par, ID}, s);
    for (auto& x : o) { State& t = x.s; t.g[GINIT] = 0; t.g[GPH] = P_LISTEN; if (!t.g[GENA]) viol(t, "C26", "reception is enabled", "initialisation does not enable reception"); if (!t.g[GDRVI]) viol(t, "C26", "driver is initialised", "initialisation does not initialise the driver");
      if (!t.g[GTX] || !t.g[G15] || !t.g[G35] || !t.g[GFE]) viol(t, "C26", "all notifications are subscribed", "a driver notification is not subscribed"); count("initialisations analysed"); t.g[GENA] = 0; t.g[GDRVI] = 0; }
    return o; }
  void dropId(State& s) {                                            // a new initialisation passes a new address: the old one becomes an unknown value
    for (int r = 0; r < I.nstatic; r++) { auto& R = I.regions[r]; if (R.kind != RK::Glob || R.chunk0 < 0 || R.bytes) continue; for (i64 o = 0; o < R.size; o++) { const CellE* c = I.cellR(s, r, o); if (c->size == 1 && T.kind(c->t) != K::Const && c->t != TUndef) *I.cell(s, r, o) = CellE{mkVar(VTOP, r, o, 0, 255), 1, 0, 0}; } }
    s.f = Facts(new FactTab); s.log = nullptr; }
  void findFlags(const State& s) { recFlags = true; for (int k : {GTX, G15, G35, GFE}) if (s.g[k]) { State t = s; t.g[GCB] = 1; callTerm((Term)s.g[k], {}, t); } recFlags = false; recorded.clear(); for (int k : {GTX, G15, G35, GFE}) if (s.g[k]) { State t = s; t.g[GCB] = 1; learnRecord(I, s, flagCells, k, callTerm((Term)s.g[k], {}, t)); } if (flagCells.empty()) throw Undecided{"the notifications record nothing"}; count("flag bytes", flagCells.size()); }
  // a frame arrives: every byte and the length are unknown
  bool rx(State& s) {
    s.g[GPH] = P_RX; s.g[GREP] = 0; s.g[GFES] = 0; s.log = nullptr; Term q = (Term)s.g[GREQ]; Term d = q ? load(s, q, 0, 8, true) : TUndef; Term l = q ? load(s, q, 8, 1) : TUndef;
    if (T.kind(d) != K::Ptr) return false;
    if (!provenEq(s, l, T0)) { viol(s, "C08", "ready for the next frame", "reception starts while the received length is " + show(norm(s, l)) + " instead of 0: the new frame is appended to old bytes"); if (s.g[GRE]) viol(s, "C26", "initialisation resets the received length", "after a repeated initialisation the received length is " + show(norm(s, l))); }
    for (int i = 0; i < 256; i++) if (!store(s, d, i, 1, F[i])) { viol(s, "C01", "reception buffer holds a whole frame", "frame byte " + std::to_string(i) + " does not fit"); return false; }
    store(s, q, 8, 1, L); return true; }
  // another station talks while the reply is transmitted: its frame lands in the reception buffer only when that is ready for one
  void echo(const State& s0, const std::function<void(State)>& f) {
    auto tell = [&](State s, int n) { s.g[GECHO] = n; s.chain = nullptr; std::vector<State> cur{std::move(s)}; for (int k : {G15, G35}) { std::vector<State> nx; for (auto& c : cur) { if (!c.g[k]) { nx.push_back(c); continue; } c.g[GCB]++; for (auto& o : callTerm((Term)c.g[k], {}, c)) { o.s.g[GCB]--; nx.push_back(o.s); } } cur.swap(nx); } for (auto& c : cur) f(c); };
    State s = s0; Term q = (Term)s.g[GREQ]; Term d = q ? load(s, q, 0, 8, true) : TUndef, l = q ? load(s, q, 8, 1) : TUndef;
    if (T.kind(d) != K::Ptr || !provenEq(s, l, T0)) { tell(s, 1); return; }
    s.log = nullptr; for (int i = 0; i < 256; i++) if (!store(s, d, i, 1, F[i])) { tell(s0, 1); return; } store(s, q, 8, 1, L); count("frames heard while transmitting");
    splitFc(s, [&](State& u, int fc) { if (fc != 3 && fc != 6) return; State w = u; if (fc == 3 && (!assume(w, mkEq(F[4], T0), true) || !assume(w, mkLe(F[5], C(qcap)), true))) return; tell(w, 2); }); }
  void unanswered(State& s) {                                        // 3.5 silence seen, nothing more to do, no reply: the frame must have been invalid
    if (s.g[GREP] || s.g[GFES]) return; State t = s; if (!assume(t, mkEq(F[0], ID), true) || !assumeCrc(t)) return;
    splitFc(t, [&](State& u, int fc) { if (fc ? !assume(u, mkEq(L, layout(fc)), true) : !assume(u, mkLe(C(4), L), true)) return; if (!assumeCrc(u)) return; Iv v = ivl(u, L); if (fc >= 15 && v.lo != v.hi) { bool any = false; for (i64 n = v.lo; n <= v.hi && !any; n++) { State w = u; if (assume(w, mkEq(L, C(n)), true) && assumeCrc(w)) any = true; } if (!any) return; }
      std::string m = "a valid frame (" + (fc ? "function code " + std::to_string(fc) : std::string("unsupported function code")) + ") for this slave is never answered"; viol(u, "C08", "every valid frame is answered", m);
      if (s.g[GEARLY]) viol(u, "C23", "early completion is not lost", m + " after a reply whose completion was notified before send returned"); if (s.g[GRE]) viol(u, "C26", "initialisation is complete", m + " after a repeated initialisation"); }); }
  void explore(u64 maxStates, bool reinit) {
    findTables(); State s0 = I.init; auto a = init(s0, false); if (a.empty()) throw Undecided{"initialisation never returns"}; findFlags(a[0].s); R.viol.clear(); seen.clear(); reV.clear();
    for (auto& o : init(s0, false)) { addB(o.s, -1, -1); }
    for (size_t b = 0; b < bs.size(); b++) {
      if (bs.size() > maxStates) throw Undecided{"more than " + std::to_string(maxStates) + " abstract states"};
      State s = bs[b].s; auto go = [&](State t, int ev) { count("transitions"); addB(std::move(t), b, ev); };
      setPath(b, E_POLL); auto po = poll(s, false); bool quiet = true; std::vector<int> dst; for (auto& o : po) { int d = addB(o.s, b, E_POLL); dst.push_back(d); if (d != (int)b) quiet = false; count("transitions"); } if (po.empty()) quiet = false;
      i64 ph = s.g[GPH];
      if (ph == P_RX || ph == P_S || ph == P_TX) for (auto& o : poll(s, true)) go(o.s, E_POLL);
      for (int e : enabled(s)) { setPath(b, e); for (auto& o : notify(s, e)) go(o.s, e); }
      if (quiet) {
        if (ph == P_TX && s.g[GECHO] < 2) { setPath(b, E_ECHO); echo(s, [&](State t) { go(t, E_ECHO); }); }
        if (ph == P_LISTEN) { setPath(b, E_RX); State t = s; if (rx(t)) splitFc(t, [&](State& u, int fc) { State w = u; w.chain = nullptr; if (fc && fc != 5 && fc != 6) { if (!assume(w, mkEq(F[4], T0), true) || !assume(w, mkLe(F[5], C(qcap)), true)) return; } go(w, E_RX); }); }
        if (ph == P_DONE) { State t = s; t.g[GPH] = P_LISTEN; t.g[GREP] = 0; go(t, E_POLL); }
        if (ph == P_D) { setPath(b, -1); unanswered(s); State t = s; t.g[GPH] = P_LISTEN; t.g[GREP] = 0; t.g[GRE] = 0; t.g[GEARLY] = 0; go(t, E_POLL); } }
      if (reinit && !s.g[GRE]) { setPath(b, E_REINIT); State t = s; dropId(t); for (auto& o : init(t, true)) go(o.s, E_REINIT); }
    }
    count("abstract states", bs.size()); reportReinit(); }
  // registration: every address, a variable and null, against "exactly that entry of its own table"
  void registration(const i64* want) {
    findTables(); memProp = "C27"; static const char* api[4] = {"register_app_data_to_modbus_slave_coils_table", "register_app_data_to_modbus_slave_din_table", "register_app_data_to_modbus_slave_hreg_table", "register_app_data_to_modbus_slave_inreg_table"}; static const char* nm[4] = {"coil", "discrete input", "holding register", "input register"};
    for (int k = 0; k < 4; k++) { auto* f = I.m.fn(api[k]); I.stack.push_back({f->id, f->file, f->line});
      for (int j = 0; j < k; j++) if (tab[j] == tab[k]) viol(I.init, "C27", "every kind of object has its own table", std::string(nm[j]) + " and " + nm[k] + " registrations share the table " + I.regions[tab[k]].name);
      if (want[k] && tabN(k) != want[k]) viol(I.init, "C27", "tables have the configured size", std::string(nm[k]) + " table has " + std::to_string(tabN(k)) + " entries, configured are " + std::to_string(want[k])); I.stack.pop_back();
      for (int null = 0; null < 2; null++) { State s = I.init; s.g[GINIT] = 3; Term a = mkSym("registered address", 0, 65535), v = null ? TNull : mkPtr(appVar(), T0); path = {std::string("register ") + (null ? "null" : "a variable") + " as " + nm[k]};
        i64 N = want[k] ? want[k] : tabN(k); auto outs = callFn(api[k], {a, v}, s); if (outs.empty() && R.viol.empty()) viol(s, "C25", "every call returns", std::string(api[k]) + " never returns"); count("registration calls analysed");
        for (auto& o : outs) for (int in = 0; in < 2; in++) { State t = o.s; if (!assume(t, mkLe(addc(a, 1), C(N)), in)) continue; count("registration outcomes checked"); int n = 0; bool good = true; I.stack.push_back({f->id, f->file, f->line});
            for (auto* l = t.log; l; l = l->parent) if (l->kind == 9) { n++; if (!in) { viol(t, "C27", "addresses outside the table are ignored", std::string(nm[k]) + " registration for an address outside the table stores into " + I.regions[l->a[0]].name); good = false; continue; }
              if (l->a[0] != tab[k]) { viol(t, "C27", "registration binds exactly that address", std::string(nm[k]) + " registration stores into table " + I.regions[l->a[0]].name); good = false; } else if (!provenEq(t, (Term)l->a[1], a)) { viol(t, "C27", "registration binds exactly that address", std::string(nm[k]) + " registration for address a stores entry " + show(norm(t, (Term)l->a[1]))); good = false; } else if (!provenEq(t, (Term)l->a[2], v)) { viol(t, "C27", "registration binds exactly that address", std::string(nm[k]) + " registration stores " + show(norm(t, (Term)l->a[2])) + " instead of the given pointer"); good = false; } }
            if (in && !n) { viol(t, "C27", "registration binds exactly that address", std::string(nm[k]) + " registration for an address inside the table (" + show(norm(t, a)) + " in [" + std::to_string(ivl(t, a).lo) + "," + std::to_string(ivl(t, a).hi) + "]) stores nothing"); } I.stack.pop_back(); (void)good; } } } }
  std::vector<int> notifications() { findTables(); std::vector<int> r; for (auto& o : init(I.init, false)) for (int k : {GTX, G15, G35, GFE}) { Term f = (Term)o.s.g[k]; if (f && T.kind(f) == K::Fn) { int id = T.pay(f)[0]; if (std::find(r.begin(), r.end(), id) == r.end()) r.push_back(id); } } return r; }
  // one frame from the freshly initialised state, executed to the reply, and what the next frame then finds
  std::set<std::vector<u64>> endings;
  void next(State s) {                                              // the frame is dealt with: a following frame must be handled as the first one was
    if (s.g[GPH] == P_TX) { for (auto& o : notify(s, E_TXD)) next(o.s); return; }
    if (s.g[GPH] == P_D) { s.g[GPH] = P_LISTEN; s.g[GREP] = 0; } std::vector<std::string> old = path; path.push_back(s.g[GEARLY] ? "(tx-done notification before send returns)" : "tx-done notification");
    std::vector<State> cur{s}; for (int n = 0; n < 3; n++) { std::vector<State> nx; std::set<std::vector<u64>> ks; for (auto& c : cur) { State b = c; std::vector<u64> k0; clean(b, k0); for (auto& o : poll(c, false)) { State t = o.s; std::vector<u64> k; clean(t, k); if (n == 0 || k != k0) { if (ks.insert(k).second) nx.push_back(t); } else ks.insert(k), nx.push_back(t); } } cur.swap(nx); }
    path.push_back("poll"); for (auto& c : cur) { State t = c; if (t.g[GPH] == P_DONE) { t.g[GPH] = P_LISTEN; t.g[GREP] = 0; } std::vector<u64> k; clean(t, k); if (t.g[GPH] != P_LISTEN || !endings.insert(k).second) continue; count("endings analysed"); path.push_back("next frame"); bool e = t.g[GEARLY];
      if (rx(t)) { if (assume(t, mkEq(F[1], C(0x41)), true)) for (auto& a : notify(t, E_T15)) for (auto& p : poll(a.s, false)) for (auto& d : notify(p.s, E_T35)) for (auto& q : poll(d.s, false)) if (q.s.g[GPH] == P_D) { q.s.g[GEARLY] = e; unanswered(q.s); } }
      else viol(t, "C08", "ready for the next frame", "no reception buffer is enabled after the previous frame was dealt with"); path.pop_back(); }
    path = old; }
  void single(int fc) {
    findTables(); for (auto& o : init(I.init, false)) { State s = o.s; findFlags(s); { std::vector<u64> key; clean(s, key); } if (!rx(s)) continue; if (fc) { if (!assume(s, mkEq(F[1], C(fc)), true)) continue; } else for (int k : {1, 2, 3, 4, 5, 6, 15, 16}) if (!assume(s, mkEq(F[1], C(k)), false)) continue;
      path = {"frame bytes arrive", "T1.5 notification", "poll", "T3.5 notification", "poll"};
      for (auto& a : notify(s, E_T15)) for (auto& p : poll(a.s, false)) for (auto& d : notify(p.s, E_T35)) { d.s.g[GPOLL] = 0; for (auto& q : poll(d.s, false)) { if (q.s.g[GPH] == P_D) unanswered(q.s); else count("replies reached"); next(q.s); } } } }
};
static void coverage(Interp& I, Result& R) { u64 tot = 0, vis = 0; for (auto& f : I.m.funcs) if (I.fnSeen[f.id] && !f.decl) { R.functions.insert(f.name); tot += f.blocks.size(); for (u8 b : I.blkSeen[f.id]) vis += b; } R.count["basic blocks in reached functions"] += tot; R.count["basic blocks analysed"] += vis; R.count["abstract instructions"] += I.steps; R.count["joins"] += I.mergeCount; }
void slaveProtocol(Module& m, Result& R, int deep) { Interp I(m); SlaveEnv E(I, R, 1 + deep); try { E.explore(20000, true); } catch (Undecided& u) { R.undecided = u.why; } coverage(I, R); }
void slaveSingle(Module& m, Result& R, int fc, bool nonnull) { cellsNonNull = nonnull; Interp I(m); SlaveEnv E(I, R, 0); try { E.single(fc); } catch (Undecided& u) { R.undecided = u.why; } coverage(I, R); }
void slaveRegister(Module& m, Result& R, const i64* want) { Interp I(m); SlaveEnv E(I, R, 0); try { E.registration(want); } catch (Undecided& u) { R.undecided = u.why; } coverage(I, R); }
std::vector<int> slaveNotifications(Module& m) { Result R; Interp I(m); SlaveEnv E(I, R, 0); return E.notifications(); }
