#pragma once
#include "env.h"
void slaveProtocol(Module& m, Result& R, int deep);
void slaveSingle(Module& m, Result& R, int fc, bool nonnull);
struct MasterCfg { int queue = 5, timeout = 1000, retries = 3; std::vector<int> kinds{6}; int maxOut = 2, maxRef = 1, pre = 1, qcap = 2; bool noise = true, early = true, nested = false, tickPre = true, reinit = true, live = true, markEarly = false, markRe = false, markRef = false; u64 maxStates = 150000; int qlo = 0, qhi = 1 << 20; bool first = true; };
void masterProtocol(Module& m, Result& R, const MasterCfg& c);
void masterSingle(Module& m, Result& R, const MasterCfg& c, int fc);
void masterTiming(Module& m, Result& R, const MasterCfg& c);
void crcRange(Module& m, Result& R, int lo, int hi);
void structural(Module& m, Result& R);
void slaveRegister(Module& m, Result& R, const i64* want);           // want: configured table sizes (coils, inputs, holding, input registers; 0 unknown)
std::vector<int> slaveNotifications(Module& m); std::vector<int> masterNotifications(Module& m);
