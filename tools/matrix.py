#!/usr/bin/env python3
"""matrix.py SOURCE_ROOT...   (development tool, no registered check uses it)

Runs the union of the quick analyses of all properties once on each tree and prints what every check would answer:
which properties would report a violation, which would give no decision.
"""
import os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check as C
import jobs as J
from concurrent.futures import ThreadPoolExecutor

class All(C.Run):
    def __init__(self, binary, front): super().__init__("*", "quick", binary, front); self.per = {}
    def found(self, job, text, prop, rule, where, msg, trace, path):
        with self.lock: self.per.setdefault(text, []).append((prop, rule, where, msg, job["mode"]))

def key(j): return repr((j["mode"], j["variant"], sorted(j["opts"].items(), key=str)))
def tree(root, binary, only=None):
    C.REPO = root; work = tempfile.mkdtemp(prefix="mbmatrix-"); t = time.time()
    try:
        front = C.Front(work); front.ir("std"); conf = front.made["std"][1]; need = {}; uses = {}
        for p in J.QUICK:
            if only and p not in only: continue
            for j in J.jobs(p, "quick", conf): need[key(j)] = j; uses.setdefault(key(j), set()).add(p)
        res = {}
        def one(k):
            r = All(binary, front); r.one(need[k]); res[k] = r
        order = sorted(need, key=lambda k: (need[k]["mode"] != "call", k))
        with ThreadPoolExecutor(J.WORKERS) as ex: list(ex.map(one, order))
    finally: shutil.rmtree(work, ignore_errors=True)
    alarm, undecided, counts = {}, {}, {}
    for k, r in res.items():
        for p in uses[k]:
            for vs in r.per.values():
                for v in vs:
                    if J.relevant(p, v[0], v[1], v[4]): alarm.setdefault(p, set()).add(v[1] + " @ " + v[2] + ": " + v[3])
            if r.undecided: undecided.setdefault(p, set()).update(r.undecided)
            c = counts.setdefault(p, {})
            for n, x in r.counts.items(): c[n] = c.get(n, 0) + x
    for p in J.PROPS:
        if only and p not in only: continue
        miss = [c for c in J.PROPS[p]["needs"] if not counts.get(p, {}).get(c)]
        if miss and p not in alarm: undecided.setdefault(p, set()).update("no " + m for m in miss)
    return alarm, {p: u for p, u in undecided.items() if p not in alarm}, time.time() - t

if __name__ == "__main__":
    only = {a for a in sys.argv[1:] if a[0] == "C" and a[1:].isdigit()} or None; b = C.engine()
    for root in [a for a in sys.argv[1:] if os.path.isdir(a)]:
        try: al, un, dt = tree(root, b, only)
        except C.NoDecision as e: print(root, "NO DECISION", e); continue
        print("%s  alarms %s  undecided %s  (%.0f s)" % (os.path.basename(root), " ".join(sorted(al)) or "-", " ".join(sorted(un)) or "-", dt))
        for p in sorted(al): print("   ", p, sorted(al[p])[0][:260], "(+%d)" % (len(al[p]) - 1))
        for p in sorted(un): print("   ", p, "?", sorted(un[p])[0][:200])
        sys.stdout.flush()
