// C10: the checksum routine, evaluated on symbolic bytes over GF(2), against CRC-16/MODBUS.
#include "checks.h"
namespace {
struct CrcEnv : BaseEnv {
  std::vector<char> read; int buf = -1; i64 len = 0; bool wr = false;
  CrcEnv(Interp& i, Result& r) : BaseEnv(i, r) { memProp = "C10"; crcFn = -1; }
  void drv(Interp&, State& s, int, int, const std::vector<Term>&, std::vector<Out>& outs) override { viol(s, "C10", "the checksum only depends on its bytes", "the checksum routine uses the driver"); outs.push_back({s, 0}); }
  bool summarise(Interp&, State&, int, const std::vector<Term>&, std::vector<Out>&) override { return false; }
  void access(Interp&, State& s, i64 r, Term off, i64 size, bool write) override {
    if (r == buf) { if (write) viol(s, "C10", "the bytes are not modified", "the checksum routine writes to the buffer"); Iv v = ivl(s, off); for (i64 k = v.lo; k < v.hi + size; k++) { if (k < 0 || k >= len) { viol(s, "C10", "exactly the given bytes are read", "byte " + std::to_string(k) + " of a buffer of " + std::to_string(len) + " is read"); break; } read[k] = 1; } }
    else if (r < I.nstatic && I.regions[r].kind == RK::Glob) viol(s, "C10", "the checksum only depends on its bytes", std::string("the checksum routine ") + (write ? "writes " : "reads ") + "the variable " + I.regions[r].name); } };
}
void crcRange(Module& m, Result& R, int lo, int hi) {
  try { const Func* f = m.fn("calculate_CRC"); if (!f || f->decl) throw Undecided{"checksum routine not found"}; if (f->nargs != 2 || f->retw != 16) throw Undecided{"the checksum routine does not have the signature (pointer, length) -> 16 bit"};
    Interp I(m); CrcEnv E(I, R); E.buf = I.addRegion(I.init, "message", 256, RK::Glob); I.seal(); std::vector<Term> F; for (int k = 0; k < 256; k++) { F.push_back(mkSym("byte[" + std::to_string(k) + "]", 0, 255)); I.storeC(I.init, E.buf, k, 1, F[k]); }
    Word crc(16); for (auto& b : crc) b.one = true;                  // reference: reflected 0xA001, start 0xFFFF
    for (int n = 0; n <= hi; n++) {
      if (n > 0) { for (int k = 0; k < 8; k++) { Bit x; x.x = {bitAtom(F[n - 1], k)}; crc[k] = bxor(crc[k], x); } for (int k = 0; k < 8; k++) { Bit o = crc[0]; for (int i = 0; i < 15; i++) crc[i] = crc[i + 1]; crc[15] = Bit(); for (int i = 0; i < 16; i++) if (0xA001 >> i & 1) crc[i] = bxor(crc[i], o); } }
      if (n < lo) continue; E.len = n; E.read.assign(256, 0); E.path = {"checksum over " + std::to_string(n) + " bytes"}; Term want = fromBits(crc); auto o = E.callFn("calculate_CRC", {mkPtr(E.buf, T0), C(n)}, I.init); E.count("lengths analysed");
      if (o.empty()) { if (R.viol.empty()) E.viol(I.init, "C10", "the checksum is CRC-16/MODBUS", "no result for " + std::to_string(n) + " bytes"); return; }
      for (auto& x : o) { Term got = norm(x.s, x.ret); if (got != want && !provenEq(x.s, got, want)) { std::string w; Word g; if (toBits(got, 16, g)) for (int i = 0; i < 16; i++) if (!(g[i] == crc[i])) { Bit d = bxor(g[i], crc[i]); w = "bit " + std::to_string(i) + " of the result for " + std::to_string(n) + " bytes differs from CRC-16/MODBUS" + (d.x.empty() ? " always" : " whenever the parity of " + show(d.x[0]) + (d.x.size() > 1 ? " and " + std::to_string(d.x.size() - 1) + " further input bits" : "") + " is " + (d.one ? "even" : "odd")); break; } if (w.empty()) w = "the result for " + std::to_string(n) + " bytes is not CRC-16/MODBUS of them (" + show(got, 3) + ")"; E.viol(x.s, "C10", "the checksum is CRC-16/MODBUS", w); return; } E.count("result bits compared", 16); }
      for (int k = 0; k < n; k++) if (!E.read[k]) { E.viol(I.init, "C10", "exactly the given bytes are read", "byte " + std::to_string(k) + " of " + std::to_string(n) + " is never read"); return; } }
    for (auto& g : m.funcs) if (I.fnSeen[g.id] && !g.decl) R.functions.insert(g.name); R.count["abstract instructions"] += I.steps;
  } catch (Undecided& u) { R.undecided = u.why; } }
