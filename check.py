#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of properties.jsonl on the current sources in /repo (environment: REPO overrides the path).

 1. builds the analysis engine (engine/, C++) if it is not built yet;
 2. compiles every src/**/*.c of the repository to LLVM IR with clang (several configurations), links it into one module;
 3. runs the analyses (jobs) the property needs on that IR, in parallel, and filters their findings by property;
 4. writes evidence/<property>.json and reports.

exit 0: every obligation of the property was discharged; exit 1: VIOLATION line(s); exit 2: no decision (reason printed).
"""
import argparse, fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import jobs as J
REPO = os.environ.get("REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
CONFIG = {"queue": "MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS", "timeout": "MODBUS_MASTER_RESP_TIME_OUT_MS", "retries": "MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR",
          "coils": "MAIN_APP_COILS_QTY", "din": "MAIN_APP_DISCRET_INPUTS_QTY", "inreg": "MAIN_APP_INPUT_REG_QTY", "hreg": "MAIN_APP_HOLDING_REG_QTY"}
FLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w"] + ["-Wno-" + w for w in (  # what gcc takes with a warning
    "incompatible-function-pointer-types", "incompatible-pointer-types", "implicit-function-declaration", "implicit-int", "int-conversion", "return-type", "return-mismatch")]

class NoDecision(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode: raise NoDecision(" ".join(cmd[:3]) + " ... failed: " + (r.stderr or r.stdout).strip()[:1500])
    return r.stdout

def engine():
    d = os.path.join(HERE, "engine"); b = os.path.join(d, "build")
    try: os.makedirs(b, exist_ok=True); lock = open(os.path.join(b, ".lock"), "w")
    except OSError: b = os.path.join(tempfile.gettempdir(), "mbcheck-build-%d" % os.getuid()); os.makedirs(b, exist_ok=True); lock = open(os.path.join(b, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sh(["make", "-s", "-j8", "-C", d, "BUILD=" + b]); lock.close()
    return os.path.join(b, "mbcheck")

class Front:
    """Front end: IR of the library in the configurations the jobs ask for."""
    def __init__(self, work):
        self.work = work; self.src = os.path.join(REPO, "src"); self.lock = threading.Lock(); self.made = {}; self.files = []
        if not os.path.isdir(self.src): raise NoDecision("no sources at " + self.src)
        self.root = {}; self.conf = {}
    def tree(self, root):
        cs, inc = [], []
        for d, _, fs in os.walk(os.path.join(root, "src")):
            if any(f.endswith(".h") for f in fs): inc.append(d)
            cs += [os.path.join(d, f) for f in fs if f.endswith(".c")]
        return sorted(cs), ["-I" + d for d in sorted(inc)]
    def values(self, root, names):
        """compile-time values of configuration constants, as the compiler evaluates them"""
        _, inc = self.tree(root); res = {}
        hs = [f for d in inc for f in sorted(os.listdir(d[2:])) if f.endswith(".h") and "config" in f and os.path.isfile(os.path.join(d[2:], f))]
        for k in names:
            p = os.path.join(root, "value_%s.c" % k)
            with open(p, "w") as f: f.write("".join('#include "%s"\n' % h for h in dict.fromkeys(hs)) + "const long value = (long)(%s);\n" % CONFIG[k])
            r = subprocess.run([LLVM + "/clang", "-w", "-S", "-emit-llvm", "-o", "-"] + inc + [p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True); os.unlink(p)
            m = re.search(r"@value\b.*constant i64 (-?\d+)", r.stdout)
            if r.returncode == 0 and m: res[k] = int(m.group(1))
            elif r.returncode == 0 and "@value" in r.stdout: res[k] = 0
        return res
    def copy(self, name, change):
        root = os.path.join(self.work, name); os.makedirs(root); shutil.copytree(self.src, os.path.join(root, "src"))
        if change:
            for d, _, fs in os.walk(os.path.join(root, "src")):
                for f in fs:
                    if not f.endswith((".h", ".c")): continue
                    p = os.path.join(d, f); s = open(p, encoding="utf-8", errors="surrogateescape").read(); n = s
                    for k, v in change.items():
                        n = re.sub(r"(#[ \t]*define[ \t]+%s[ \t]+)[^\s/]+" % CONFIG[k], lambda m: m.group(1) + str(v), n)
                        n = re.sub(r"(\b%s[ \t]*=[ \t]*)\d+" % CONFIG[k], lambda m: m.group(1) + str(v), n)
                    if n != s: open(p, "w", encoding="utf-8", errors="surrogateescape").write(n)
            got = self.values(root, change)
            if got != {k: v for k, v in change.items()}: return None
        return root
    def ir(self, variant):
        """-> (IR file, constants of that configuration) or None when the configuration cannot be made"""
        with self.lock:
            if variant in self.made: return self.made[variant]
            root = self.copy(variant, J.VARIANTS[variant])
            if root is None: self.made[variant] = None; return None
            cs, inc = self.tree(root)
            if not cs: raise NoDecision("no C files under " + self.src)
            outs = []
            def one(i_c):
                i, c = i_c; o = os.path.join(root, "%d.bc" % i)
                r = subprocess.run([LLVM + "/clang"] + FLAGS + ["-fdebug-prefix-map=%s/=" % root] + inc + ["-emit-llvm", "-c", os.path.relpath(c, root), "-o", o], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode: raise NoDecision("clang cannot compile %s: %s" % (os.path.relpath(c, root), r.stderr.strip()[:1000]))
                return o
            with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, enumerate(cs)))
            a = os.path.join(root, "all.bc"); b = os.path.join(root, "module.bc")
            sh([LLVM + "/llvm-link"] + outs + ["-o", a]); sh([LLVM + "/opt", "-passes=mem2reg,sroa", a, "-o", b])
            self.files = [os.path.relpath(c, root) for c in cs]
            self.made[variant] = (b, self.values(root, CONFIG)); return self.made[variant]

class Run:
    """all jobs of one check"""
    def __init__(self, prop, tier, binary, front):
        self.prop, self.tier, self.bin, self.front = prop, tier, binary, front
        self.viol, self.counts, self.notes, self.funcs, self.undecided, self.jobs = [], {}, [], set(), [], []
        self.procs = set(); self.stop = False; self.lock = threading.Lock(); self.deadline = time.time() + (J.BUDGET[tier]); self.skipped = []
    def args(self, job, conf):
        mode, opts = job["mode"], dict(job["opts"]); ks = opts.pop("k", None); a = [mode]
        if mode == "register":
            for k in ("coils", "din", "hreg", "inreg"):
                if k in conf: a.append("%s=%d" % (k, conf[k]))
        if mode in ("master", "call", "time"):
            for k in ("queue", "timeout", "retries"):
                if k in conf: a.append("%s=%d" % (k, conf[k]))
        if ks is not None: a += ["k=%d" % k for k in (ks if isinstance(ks, (list, tuple)) else [ks])]
        return a + ["%s=%s" % kv for kv in opts.items()]
    def one(self, job):
        if self.stop: return
        try:
            made = self.front.ir(job["variant"])
            if made is None:
                with self.lock: self.skipped.append(job)
                alt = job.get("fallback")
                if not alt: return
                job = alt; made = self.front.ir(job["variant"])
                if made is None: return
        except NoDecision as e:
            with self.lock: self.undecided.append(str(e))
            return
        ir, conf = made; t0 = time.time(); argv = [self.bin, ir] + self.args(job, conf); text = "%s[%s]" % (" ".join(argv[2:]), job["variant"])
        def lim():
            os.setsid(); resource.setrlimit(resource.RLIMIT_AS, (J.MEMORY, J.MEMORY)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", preexec_fn=lim)
        with self.lock: self.procs.add(p)
        killer = threading.Timer(max(1, self.deadline - t0), lambda: p.kill()); killer.start()
        ended = False; cnt = {}; und = None
        for line in p.stdout:
            f = line.rstrip("\n").split("\t")
            if f[0] == "V" and len(f) >= 7: self.found(job, text, *f[1:7])
            elif f[0] == "C": cnt[f[1]] = cnt.get(f[1], 0) + int(f[2])
            elif f[0] == "F":
                with self.lock: self.funcs.add(f[1])
            elif f[0] == "U": und = f[1]
            elif f[0] == "N":
                with self.lock:
                    if f[1] not in self.notes: self.notes.append(f[1])
            elif f[0] == "E": ended = True
        p.wait(); killer.cancel()
        with self.lock:
            self.procs.discard(p)
            if self.stop: return
            for k, v in cnt.items(): self.counts[k] = self.counts.get(k, 0) + v
            self.jobs.append(dict(analysis=text, seconds=round(time.time() - t0, 1), counts=cnt))
            if und: self.undecided.append("%s: %s" % (text, und))
            elif not ended: self.undecided.append("%s: analysis did not finish (time or memory limit)" % text)
    def found(self, job, text, prop, rule, where, msg, trace, path):
        if not J.relevant(self.prop, prop, rule, job["mode"]): return
        with self.lock:
            v = dict(property=self.prop, reported_as=prop, rule=rule, where=where, message=msg, call_path=trace, events=path, analysis=text)
            if any((w["rule"], w["where"], w["message"]) == (rule, where, msg) for w in self.viol): return
            self.viol.append(v)
            if not known(self.prop, v): self.stop_soon()
    def stop_soon(self):
        if self.stop: return
        self.stop = True
        def end():
            for p in list(self.procs):
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        threading.Timer(0.5, end).start()
    def all(self, jobs):
        with ThreadPoolExecutor(J.WORKERS) as ex: list(ex.map(self.one, jobs))

def known(prop, v):
    """committed list of genuine defects that were recorded instead of repaired"""
    try: lines = open(os.path.join(HERE, "known-findings.txt")).read().splitlines()
    except OSError: return None
    for l in lines:
        m = re.match(r"known: property=(\S+) rule=\[(.*?)\] function=(\S+) (.*)", l)
        if m and m.group(1) == prop and m.group(2) == v["rule"] and v["where"].split(" ")[0] == m.group(3): return m.group(4)
    return None

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"]); a = ap.parse_args()
    prop = a.property; t0 = time.time(); work = tempfile.mkdtemp(prefix="mbcheck-")
    if prop not in J.PROPS: print("unknown property " + prop); return 2
    try:
        front = Front(work); run = Run(prop, a.tier, engine(), front); front.ir("std")
        jobs = J.jobs(prop, a.tier, front.made["std"][1]); run.all(jobs)
    except NoDecision as e: print("NO DECISION property=%s %s" % (prop, e)); return 2
    finally: shutil.rmtree(work, ignore_errors=True)
    spec = J.PROPS[prop]; missing = []
    if not run.viol:
        missing = [c for c in spec["needs"] if not run.counts.get(c)]
        if spec.get("variants_needed") and run.skipped and not run.jobs: missing.append("analysable configuration")
    findings = [(v, known(prop, v)) for v in run.viol]; new = [v for v, k in findings if not k]
    obligations = sum(run.counts.get(c, 0) for c in spec["obligations"])
    cov = dict(explanation=J.explain(prop), rule=spec["rule"], obligations=obligations, discharged=obligations if not run.viol and not run.undecided else max(0, obligations - len(run.viol)),
               obligation_kinds={c: run.counts.get(c, 0) for c in spec["obligations"]}, source_files=front.files, functions_analysed=sorted(run.funcs), functions_count=len(run.funcs),
               counters=dict(sorted(run.counts.items())), jobs=run.jobs, configurations=sorted({j["analysis"].rsplit("[", 1)[1][:-1] for j in run.jobs if "[" in j["analysis"]}), notes=run.notes,
               configurations_not_applicable=["%s (%s)" % (j["variant"], j["mode"]) for j in run.skipped], undecided=run.undecided)
    if spec["level"] == "proof": cov["checker_cmd"] = "python3 check.py %s" % prop; cov["trusted_base"] = J.TRUSTED
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level=spec["level"], coverage=cov, assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    for v, k in findings:
        if k: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if new:
        rp = os.path.join("evidence", prop + ".violation.txt")
        with open(os.path.join(HERE, rp), "w") as f:
            for v in new: f.write("property   %s\nrule       %s\nwhere      %s\nfinding    %s\ncall path  %s\nevents     %s\nanalysis   %s\n\n" % (prop, v["rule"], v["where"], v["message"], v["call_path"], v["events"], v["analysis"]))
        for v in new[:10]: print("%s: %s: %s" % (v["where"], v["rule"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
    if run.undecided or missing:
        for u in run.undecided: print("NO DECISION property=%s %s" % (prop, u))
        for m in missing: print("NO DECISION property=%s nothing analysed: no %s" % (prop, m))
        return 2
    print("OK property=%s: %d obligations discharged, %d functions, %d analyses, %.1f s" % (prop, obligations, len(run.funcs), len(run.jobs), time.time() - t0)); return 0
if __name__ == "__main__": sys.exit(main())
