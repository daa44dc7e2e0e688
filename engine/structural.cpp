// Call-graph and effect analyses over the whole linked program: C22, C24, C25.
#include "checks.h"
#include <algorithm>
#include <functional>
namespace {
const std::vector<std::string> slaveRoots = {"register_app_data_to_modbus_slave_coils_table", "register_app_data_to_modbus_slave_din_table", "register_app_data_to_modbus_slave_hreg_table", "register_app_data_to_modbus_slave_inreg_table", "modbus_slave_init", "check_modbus_request"};
const std::vector<std::string> masterRoots = {"modbus_master_read_coils", "modbus_master_read_discrete_inputs", "modbus_master_read_holding_reg", "modbus_master_read_input_reg", "modbus_master_write_single_coil", "modbus_master_write_multiple_coils", "modbus_master_write_single_reg", "modbus_master_write_multiple_reg", "modbus_master_init", "update_modbus_master_manager", "update_modbus_master_timout_timer"};
const std::set<std::string> drivers[2] = {{"get_slave_RTU_driver_interface"}, {"get_master_RTU_driver_interface"}};
const std::set<std::string> pureLib = {"memcpy", "memmove", "memset", "memcmp", "abs", "labs", "__assert_fail"};   // bounded, no storage of their own (explorations judge the reachable ones)
const std::set<std::string> callbacks = {"modbus_master_coil_read", "modbus_master_coil_write", "modbus_master_coil_exception", "modbus_master_disin_read", "modbus_master_disin_exception", "modbus_master_inreg_read", "modbus_master_inreg_exception", "modbus_master_hreg_read", "modbus_master_hreg_write", "modbus_master_hreg_exception", "modbus_master_data_timeout_error", "modbus_master_communication_error"};
bool appCallback(const std::string& n) { return callbacks.count(n); }
struct Call { int from, to, file, line; };
struct Side { std::set<int> fn, gl; std::vector<Call> calls; std::vector<Call> indirect; std::map<int, int> via; };
struct An {
  Module& m; Result& R; std::set<std::string> seen;
  An(Module& a, Result& r) : m(a), R(r) {}
  std::string at(int file, int line) { std::string f = file >= 0 ? m.files[file] : "?"; size_t p = f.find("/src/"); if (p != std::string::npos) f = f.substr(p + 1); return f + ":" + std::to_string(line); }
  void viol(const std::string& p, const std::string& rule, const std::string& fn, int file, int line, const std::string& msg, const std::string& path) { std::string w = fn + " (" + at(file, line) + ")"; if (seen.insert(p + rule + w + msg).second) R.add({p, rule, w, msg, "", path}); }
  void initGlobals(int g, std::set<int>& gl, std::set<int>& taken) { if (!gl.insert(g).second) return; for (auto& c : m.globals[g].init) { if (c.k == InitCell::Glob) initGlobals(c.id, gl, taken); if (c.k == InitCell::Func) taken.insert(c.id); } }
  Side reach(const std::vector<int>& roots, bool followIndirect) {
    Side S; std::vector<int> wl; std::set<int> taken; std::vector<std::pair<Call, int>> ind; auto add = [&](int f, int from) { if (S.fn.insert(f).second) { S.via[f] = from; wl.push_back(f); } }; for (int r : roots) add(r, -1);
    while (true) {
      while (!wl.empty()) { int f = wl.back(); wl.pop_back(); for (auto& b : m.funcs[f].blocks) for (auto& in : b.insts) { for (size_t k = 0; k < in.ops.size(); k++) { auto& o = in.ops[k]; if (o.k == Opnd::Glob) initGlobals(o.id, S.gl, taken); if (o.k == Opnd::Func && o.id >= 0 && !(in.op == Op::Call && k == 0)) taken.insert(o.id); }
          if (in.op != Op::Call || in.ops.empty()) continue; if (in.ops[0].k == Opnd::Func) { S.calls.push_back({f, in.ops[0].id, in.file, in.line}); add(in.ops[0].id, f); } else { S.indirect.push_back({f, -1, in.file, in.line}); ind.push_back({{f, -1, in.file, in.line}, (int)in.ops.size() - 1}); } } }
      if (!followIndirect) break; for (auto& i : ind) for (int t : taken) if (!m.funcs[t].decl && m.funcs[t].nargs == i.second) add(t, i.first.from);
      if (wl.empty()) break; }
    return S; }
  std::string chain(const Side& S, int f) { std::string p = m.funcs[f].name; for (int k = 0; k < 40; k++) { auto i = S.via.find(f); if (i == S.via.end() || i->second < 0) break; f = i->second; p = m.funcs[f].name + " > " + p; } return p; }
  std::vector<int> ids(const std::vector<std::string>& n) { std::vector<int> r; for (auto& s : n) { auto* f = m.fn(s); if (!f || f->decl) throw Undecided{"entry point " + s + " not found"}; r.push_back(f->id); } return r; }
  // stores through addresses derived from a global, followed through address arithmetic, calls and returns
  bool written(int g, const std::set<int>& fns, std::string& where) {
    std::set<std::pair<int, int>> d; bool ch = true, hit = false; std::set<int> retD;
    auto is = [&](int f, const Opnd& o) { return (o.k == Opnd::Glob && o.id == g) || (o.k == Opnd::Reg && d.count({f, o.id})); };
    while (ch && !hit) { ch = false; for (int f : fns) { for (auto& b : m.funcs[f].blocks) for (auto& in : b.insts) {
        auto W = [&](const char* how) { hit = true; where = std::string(how) + " in " + m.funcs[f].name + " (" + at(in.file, in.line) + ")"; };
        switch (in.op) { case Op::Gep: case Op::Cast: case Op::Phi: case Op::Select: case Op::Freeze: case Op::Bin: for (auto& o : in.ops) if (is(f, o) && in.dst >= 0 && d.insert({f, in.dst}).second) ch = true; break;
          case Op::Store: if (is(f, in.ops[1])) W("stored"); else if (is(f, in.ops[0])) W("its address is stored"); break;
          case Op::MemSet: case Op::MemCpy: if (is(f, in.ops[0])) W("stored"); break;
          case Op::Ret: if (!in.ops.empty() && is(f, in.ops[0]) && retD.insert(f).second) ch = true; break;
          case Op::Call: if (in.ops[0].k == Opnd::Func && !m.funcs[in.ops[0].id].decl) { auto& c = m.funcs[in.ops[0].id]; for (size_t k = 1; k < in.ops.size() && k <= c.argRegs.size(); k++) if (is(f, in.ops[k]) && d.insert({c.id, c.argRegs[k - 1]}).second) ch = true; if (in.dst >= 0 && retD.count(c.id) && d.insert({f, in.dst}).second) ch = true; }
            else for (size_t k = 1; k < in.ops.size(); k++) if (is(f, in.ops[k])) W("its address is handed out"); break;
          default: break; } if (hit) return true; } } }
    return hit; }
  // a loop that changes nothing and whose conditions depend on memory only: it ends when somebody else changes that memory
  void waitLoop(Func& F, int h) {
    std::set<int> L{h}; std::vector<int> w; for (int p : F.blocks[h].preds) if (F.blocks[p].order >= F.blocks[h].order && L.insert(p).second) w.push_back(p);
    while (!w.empty()) { int x = w.back(); w.pop_back(); for (int p : F.blocks[x].preds) if (L.insert(p).second) w.push_back(p); }
    std::map<int, const Inst*> def; for (int b : L) for (auto& in : F.blocks[b].insts) { if (in.op == Op::Store || in.op == Op::Call || in.op == Op::MemSet || in.op == Op::MemCpy || in.op == Op::Unsup || in.op == Op::Ret) return; if (in.dst >= 0) def[in.dst] = &in; }
    bool load = false; std::set<int> seen; std::vector<int> q; const Inst* ex = nullptr;
    for (int b : L) { auto& t = F.blocks[b].insts.back(); bool leaves = false; for (int x : t.succ) leaves |= !L.count(x); bool branches = t.succ.size() > 1; if (leaves && !ex) ex = &t; if (branches) for (auto& o : t.ops) if (o.k == Opnd::Reg) q.push_back(o.id); }
    while (!q.empty()) { int x = q.back(); q.pop_back(); if (!seen.insert(x).second || !def.count(x)) continue; auto* d = def[x]; if (d->op == Op::Load) load = true; if (d->op == Op::Phi && d >= &F.blocks[h].insts.front() && d <= &F.blocks[h].insts.back()) return; for (auto& o : d->ops) if (o.k == Opnd::Reg) q.push_back(o.id); }
    if (ex && load) viol("C25", "no waiting", F.name, ex->file, ex->line, "a loop that changes nothing waits until a variable is changed from outside", ""); }
  void run() {
    std::vector<int> notif[2]; notif[0] = slaveNotifications(m); notif[1] = masterNotifications(m); int tick = ids({"update_modbus_master_timout_timer"})[0];
    // C22
    for (int side = 0; side < 2; side++) { auto v = notif[side]; if (side) v.push_back(tick); std::set<int> u(v.begin(), v.end()); R.count["notification functions"] += u.size(); if (u.size() < 2) throw Undecided{"fewer than two notification functions found"};
      Side S = reach(std::vector<int>(u.begin(), u.end()), false);
      for (auto& c : S.indirect) viol("C22", "notifications only signal", m.funcs[c.from].name, c.file, c.line, "a notification calls through a function pointer (driver or application code)", chain(S, c.from));
      for (int f : S.fn) { auto& F = m.funcs[f]; if (F.decl) { for (auto& c : S.calls) if (c.to == f && !pureLib.count(F.name)) viol("C22", "notifications only signal", m.funcs[c.from].name, c.file, c.line, "a notification calls " + F.name, chain(S, c.from)); continue; }
        R.functions.insert(F.name); R.count["functions reachable from notifications"]++; for (auto& b : F.blocks) { R.count["basic blocks of notifications"]++; if (b.loopHead) { int fl = F.file, ln = F.line; for (auto& in : b.insts) if (in.line) { fl = in.file; ln = in.line; break; } viol("C22", "notifications contain no loop", F.name, fl, ln, "a notification contains a loop", chain(S, f)); }
          for (auto& in : b.insts) { if (in.op == Op::MemSet || in.op == Op::MemCpy) viol("C22", "notifications only signal", F.name, in.file, in.line, "a notification copies or clears memory blocks", chain(S, f)); R.count["instructions of notifications"]++; } } } }
    // C24
    Side S[2]; for (int side = 0; side < 2; side++) { auto r = ids(side ? masterRoots : slaveRoots); r.insert(r.end(), notif[side].begin(), notif[side].end()); S[side] = reach(r, true); R.count[side ? "functions reachable from master calls" : "functions reachable from slave calls"] = S[side].fn.size(); R.count[side ? "variables reachable from master calls" : "variables reachable from slave calls"] = S[side].gl.size(); if (S[side].gl.empty()) throw Undecided{"no variables found"}; }
    const char* nm[2] = {"slave", "master"}; std::set<int> all = S[0].fn; all.insert(S[1].fn.begin(), S[1].fn.end());
    for (int g : S[0].gl) if (S[1].gl.count(g)) { auto& G = m.globals[g]; R.count["variables named by both sides"]++; if (G.constant) { R.count["shared constants"]++; continue; } std::string w; std::set<int> defs; for (int f : all) if (!m.funcs[f].decl) defs.insert(f); if (!written(g, defs, w)) { R.count["shared variables that nobody writes"]++; continue; }
        std::string user[2]; for (int k = 0; k < 2; k++) for (int f : S[k].fn) for (auto& b : m.funcs[f].blocks) for (auto& in : b.insts) for (auto& o : in.ops) if (o.k == Opnd::Glob && o.id == g && user[k].empty()) user[k] = chain(S[k], f) + " (" + at(in.file, in.line) + ")";
        viol("C24", "no variable is shared", G.srcname.empty() ? G.name : G.srcname, G.file, G.line, "variable " + G.name + " is reachable from slave and master calls and is not constant: " + w, "slave: " + user[0] + " | master: " + user[1]); }
    for (int side = 0; side < 2; side++) { bool own = false; for (auto& c : S[side].calls) { if (drivers[side].count(m.funcs[c.to].name)) own = true; if (drivers[1 - side].count(m.funcs[c.to].name)) viol("C24", "own driver interface", m.funcs[c.from].name, c.file, c.line, std::string(nm[side]) + " code asks for the driver interface of the other side", chain(S[side], c.from)); } R.count["driver interface requests"] += own; if (!own) throw Undecided{std::string(nm[side]) + " never asks for its driver interface"}; }
    { std::set<int> a(notif[0].begin(), notif[0].end()); for (int f : notif[1]) if (a.count(f)) viol("C24", "own notification functions", m.funcs[f].name, m.funcs[f].file, m.funcs[f].line, "slave and master subscribe the same notification function", ""); }
    for (int side = 0; side < 2; side++) { auto r = ids(side ? slaveRoots : masterRoots); for (int f : r) if (S[side].fn.count(f)) viol("C24", "no calls across sides", m.funcs[f].name, m.funcs[f].file, m.funcs[f].line, std::string(nm[side]) + " code calls the other side's API", chain(S[side], f)); }
    // C25
    for (int f : all) { auto& F = m.funcs[f]; if (F.decl) { R.count["external functions"]++; if (drivers[0].count(F.name) || drivers[1].count(F.name) || pureLib.count(F.name) || appCallback(F.name)) continue; for (int k = 0; k < 2; k++) for (auto& c : S[k].calls) if (c.to == f) viol("C25", "only driver and application functions are called", m.funcs[c.from].name, c.file, c.line, "call to external function " + F.name, chain(S[k], c.from)); continue; }
      R.functions.insert(F.name); for (auto& b : F.blocks) for (auto& in : b.insts) { if (in.op == Op::Alloca && in.size < 0) viol("C25", "bounded stack", F.name, in.file, in.line, "array of variable size on the stack", ""); if (in.op == Op::Unsup && in.text == "inline asm") viol("C25", "only driver and application functions are called", F.name, in.file, in.line, "inline assembly", ""); if (in.op == Op::Call) R.count["call sites"]++; }
      for (auto& b : F.blocks) if (b.loopHead) { R.count["loops"]++; waitLoop(F, (int)(&b - &F.blocks[0])); } }
    std::map<int, std::vector<Call>> out; for (int k = 0; k < 2; k++) for (auto& c : S[k].calls) out[c.from].push_back(c);
    std::map<int, int> col; std::vector<int> st; std::function<void(int)> dfs = [&](int f) { col[f] = 1; st.push_back(f); for (auto& c : out[f]) { if (col[c.to] == 1) { std::string p; bool on = false; for (int x : st) { if (x == c.to) on = true; if (on) p += m.funcs[x].name + " > "; } viol("C25", "no recursion", m.funcs[f].name, c.file, c.line, "recursive call: " + p + m.funcs[c.to].name, ""); } else if (!col[c.to]) dfs(c.to); } st.pop_back(); col[f] = 2; };
    for (int f : all) if (!col[f]) dfs(f); R.count["call graph edges"] += S[0].calls.size() + S[1].calls.size();
  }
};
}
void structural(Module& m, Result& R) { try { An(m, R).run(); } catch (Undecided& u) { R.undecided = u.why; } }
