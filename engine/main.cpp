// Command line of the analyses: mbcheck IR MODE [key=value ...]; prints tab-separated records (V violation, C count, N note, F function, U undecided, E end).
#include "checks.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
int main(int c, char** v) {
  if (c < 3) { fprintf(stderr, "usage: mbcheck IR MODE [key=value ...]\n"); return 2; }
  Module m; if (!loadModule(v[1], m) || !m.error.empty()) { printf("U\t%s\nE\n", m.error.c_str()); return 0; }
  Result R; std::string w = v[2]; MasterCfg M; M.kinds.clear(); int fc = 0, lo = 0, hi = 256, nonnull = 0; int deep = 0; i64 want[4] = {0, 0, 0, 0};
  for (int i = 3; i < c; i++) { char* e = strchr(v[i], '='); if (!e) { fprintf(stderr, "bad argument %s\n", v[i]); return 2; } std::string k(v[i], e - v[i]); i64 n = atoll(e + 1);
    if (k == "k") M.kinds.push_back(n); else if (k == "out") M.maxOut = n; else if (k == "ref") M.maxRef = n; else if (k == "pre") M.pre = n; else if (k == "noise") M.noise = n; else if (k == "early") M.early = n; else if (k == "nested") M.nested = n; else if (k == "tickpre") M.tickPre = n; else if (k == "reinit") M.reinit = n; else if (k == "live") M.live = n;
    else if (k == "markearly") M.markEarly = n; else if (k == "markre") M.markRe = n; else if (k == "markref") M.markRef = n; else if (k == "queue") M.queue = n; else if (k == "qcap") M.qcap = n; else if (k == "timeout") M.timeout = n; else if (k == "retries") M.retries = n; else if (k == "states") M.maxStates = n; else if (k == "qlo") M.qlo = n; else if (k == "qhi") M.qhi = n; else if (k == "first") M.first = n;
    else if (k == "fc") fc = n; else if (k == "lo") lo = n; else if (k == "hi") hi = n; else if (k == "nonnull") nonnull = n; else if (k == "deep") deep = n; else if (k == "coils") want[0] = n; else if (k == "din") want[1] = n; else if (k == "hreg") want[2] = n; else if (k == "inreg") want[3] = n; else { fprintf(stderr, "unknown argument %s\n", k.c_str()); return 2; } }
  Result::stream = true; if (M.kinds.empty()) M.kinds = {6};
  try {
    if (w == "slave") slaveProtocol(m, R, deep); else if (w == "request") slaveSingle(m, R, fc, nonnull); else if (w == "register") slaveRegister(m, R, want); else if (w == "master") masterProtocol(m, R, M); else if (w == "call") masterSingle(m, R, M, fc); else if (w == "time") masterTiming(m, R, M); else if (w == "crc") crcRange(m, R, lo, hi); else if (w == "structure") structural(m, R); else { fprintf(stderr, "unknown mode %s\n", w.c_str()); return 2; }
  } catch (Undecided& u) { R.undecided = u.why; } catch (std::bad_alloc&) { R.undecided = "out of memory"; }
  fputs((R.json() + "E\n").c_str(), stdout); fflush(stdout); _Exit(0);
}
