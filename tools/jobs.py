"""Which analyses decide which property, what they count as obligations, and what has to be non-zero."""
WORKERS = 8
MEMORY = 10 << 30
BUDGET = {"quick": 840, "thorough": 6 * 3600}
VARIANTS = {"std": {}, "q1": {"queue": 1}, "q2": {"queue": 2}, "sizes": {"coils": 37, "din": 41, "inreg": 43, "hreg": 47},
            "big": {"coils": 2003, "din": 2007, "inreg": 137, "hreg": 131}}          # more than the protocol limits: 2000, 2000, 125, 125
KINDS = (1, 2, 3, 4, 5, 6, 15, 16)
TRUSTED = ["clang 18 front end, mem2reg and sroa passes, LLVM bitcode reader", "engine/ (the abstract interpreter and its rules)", "the environment assumptions listed in this file"]

def j(mode, variant="std", fallback=None, **opts): return dict(mode=mode, variant=variant, opts=opts, fallback=fallback)
SLAVE = [j("slave", deep=1)]
def requests(fcs=(1, 2, 3, 4, 5, 6, 15, 16, 0)): return [j("request", fc=f) for f in fcs]
def requests_big(fcs=(1, 2, 15, 3, 4, 5, 6, 16, 0), nulls=False): return [j("request", "big", fc=f, **({"nonnull": 1} if f in (1, 2, 15) and not (nulls and f == 15) else {})) for f in fcs]
def one(kinds=KINDS, **o):
    o = dict(dict(out=1, pre=1), **o); return [j("master", "q1", j("master", "std", k=k, **o), k=k, **o) for k in kinds]
def two(k=(6,), **o):
    o = dict(dict(out=2, pre=1), **o); return [j("master", "q2", j("master", "std", k=list(k), **dict(o, pre=0)), k=list(k), **o)]
def five(k=(6,), **o): return [j("master", "std", k=list(k), out=5, pre=0, ref=0, noise=0, reinit=0, **o)]
def calls(fcs=KINDS):
    r = []
    for f in fcs:
        if f in (1, 2): r += [j("call", fc=f, qlo=lo, qhi=hi, first=int(lo == 0)) for lo, hi in ((1601, 1 << 20), (1201, 1600), (801, 1200), (401, 800), (0, 400))]
        else: r.append(j("call", **dict(fc=f))); r += [j("call", "q1", fc=f)] if f >= 15 else []      # one row: writes past it leave the object
    return r
MIXED = [j("master", "q1", j("master", "std", k=list(KINDS), out=1, pre=0, noise=0), k=list(KINDS), out=1, pre=0)]     # histories that mix the kinds of requests
TIME = [j("time")]
CRC = [j("crc", lo=lo, hi=hi) for lo, hi in ((0, 8), (240, 256), (224, 239), (208, 223), (192, 207), (176, 191), (160, 175), (144, 159), (128, 143), (96, 127), (64, 95), (9, 63))]
STRUCT = [j("structure")]
REGISTER = [j("register"), j("register", "sizes"), j("register", "big")]

A_CFG = "the driver and application callbacks behave like the functions documented in modbus_driver_interface.h: they return, and touch only what is passed to them or was handed to them before"
A_POLL = "init is called before polling; RTU mode (the only mode implemented)"
A_PRE = "notifications interrupt a poll at any instruction, at most %s per poll in the protocol explorations; between polls in any number and order"
A_BYTES = "the driver appends received bytes to the enabled buffer and counts them in its length field; no byte of a new frame is appended while a complete, error-free frame still waits for its poll (the documented polling requirement)"
A_QCAP = "protocol explorations use quantities 1..2 symbolically (all quantities are covered by the single-request analyses)"
A_BIG = "configuration with tables larger than the protocol limits: all variables registered for functions 1, 2 and 15 (unregistered ones are covered in the shipped configuration)"
ASLAVE = [A_CFG, A_POLL, A_PRE % "2 (4 in the thorough tier)", A_BYTES, A_BIG]
AMASTER = [A_CFG, A_POLL, A_PRE % "1", A_QCAP, A_BYTES]

ENGINE = ("Trace-partitioned abstract interpretation of the LLVM IR that clang makes of the current sources: values are linear forms and bit-affine words over symbolic bytes with interval facts, "
          "memory is tracked per variable; a most general environment delivers every frame (all bytes, all lengths 0..255) and every order of notifications, polls, ticks and calls, and abstract states are explored to a fixpoint. "
          "Each rule is evaluated at every abstract driver call, application access or memory access it governs; nothing is executed and no solver is used. ")
SL_PROTO = "slave protocol fixpoint (all histories of notifications, frames, polls, re-initialisations)"
SL_REQ = "all requests per function code from an arbitrary earlier buffer content, shipped and enlarged table sizes"
MA_PROTO = "master protocol fixpoint per request kind (requests, refusals, notifications, ticks, polls, early completions, re-initialisation), queue sizes 1, 2 and the configured one"
MA_CALL = "every request call with every argument, followed by its transmission and every possible response"

def P(rule, obligations, needs=None, scope="", level="other", assumptions=()):
    return dict(rule=rule, obligations=obligations, needs=list(obligations) if needs is None else needs, scope=scope, level=level, assumptions=list(assumptions))
PROPS = {
 "C01": P("every load, store, copy and dereference on a slave path stays inside an object, is initialised and not null", ["basic blocks analysed", "reply bytes compared"], ["basic blocks analysed", "polls analysed", "replies analysed"], SL_PROTO + "; " + SL_REQ, assumptions=ASLAVE),
 "C02": P("per function code and parameter case: refused with exactly the prescribed exception code, or answered normally", ["reply cases checked"], None, SL_REQ, assumptions=ASLAVE),
 "C03": P("per quantity: byte count, packing, byte order and values of the data reply equal the table's variables at the requested addresses", ["data replies checked", "reply bytes compared"], None, SL_REQ, assumptions=ASLAVE),
 "C04": P("per application write: address inside the requested range, value that of the request; per reply: every requested value stored, echo correct", ["data replies checked", "application write sites x paths"], None, SL_REQ, assumptions=ASLAVE),
 "C05": P("no path that is not an accepted write request stores to an application variable", ["polls analysed", "notifications analysed", "initialisations analysed", "reply cases checked"], None, SL_PROTO + "; " + SL_REQ, assumptions=ASLAVE),
 "C06": P("per reply: address, function code, exact length and checksum position", ["replies analysed", "reply cases checked"], None, SL_PROTO + "; " + SL_REQ, assumptions=ASLAVE),
 "C07": P("at each send and application write: the frame is addressed, checksum-correct, error-free and complete (typestate of the frame)", ["replies analysed", "transitions"], None, SL_PROTO + "; " + SL_REQ, assumptions=ASLAVE),
 "C08": P("in every abstract state a valid frame leads to exactly one send, and every state returns to reception", ["abstract states", "transitions", "preemption points"], None, SL_PROTO, assumptions=ASLAVE),
 "C09": P("at each application write and data reply: the bytes used lie below the received length, which is the one the function code requires", ["replies analysed", "reply cases checked"], None, SL_PROTO + "; " + SL_REQ, assumptions=ASLAVE),
 "C10": P("per length 0..256: each of the 16 result bits, as an affine function over GF(2) of the message bits, equals that of CRC-16/MODBUS", ["result bits compared", "lengths analysed"], None, "every length 0..256, all contents at once", "proof", [A_CFG]),
 "C11": P("per transmitted byte: equals the byte the Modbus encoding of the recorded call prescribes", ["request frame bytes compared", "transmissions analysed"], None, MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
 "C12": P("per call path: accepted exactly when the quantity is legal and a buffer is free, correct refusal code, no effect of a refusal", ["request calls analysed", "refused calls while waiting"], None, MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
 "C13": P("in every abstract state: as many calls accepted as buffers are not outstanding, after every history of outcomes", ["pool probes", "abstract states", "request calls analysed"], None, MA_PROTO, assumptions=AMASTER),
 "C14": P("at each send: the oldest unfinished request is the one transmitted, its predecessor has an outcome, its frame is the one queued", ["transmissions analysed", "transitions"], None, MA_PROTO, assumptions=AMASTER),
 "C15": P("per application read callback: kind, slave, object address and value of the response; per delivered request: each object exactly once", ["requests finished", "transmissions analysed"], None, MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
 "C16": P("every load, store, copy and dereference on a master path stays inside an object, is initialised and not null", ["basic blocks analysed", "request frame bytes compared"], ["basic blocks analysed", "polls analysed", "request calls analysed"], MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
 "C17": P("at each application callback: the response was received after the request, is addressed, checksum-correct, error-free, complete and matches the request", ["requests finished", "transitions"], None, MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
 "C18": P("typestate per request: transmitted 1..4 times identically, repeated only after a bad response, exactly one outcome", ["outcomes analysed", "transmissions analysed", "states checked for progress", "damaged responses analysed", "repeated transmissions analysed"], None, MA_PROTO, assumptions=AMASTER),
 "C19": P("all poll/tick patterns: timeout reported by the first poll after the response time, not earlier, with the request's data", ["poll times analysed", "outcomes analysed"], None, "all tick counts and all polled/unpolled patterns for the configured response time; " + MA_PROTO, assumptions=AMASTER),
 "C20": P("per exception or error report: every field equals that of the request (and the exception code that of the response)", ["outcomes analysed"], None, MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
 "C21": P("from every abstract state, silence (polls and ticks) leads to idle with every request finished", ["states checked for progress", "progress steps", "preemption points"], None, MA_PROTO, assumptions=AMASTER),
 "C22": P("effect analysis: notifications and the tick have no loop, no call of the driver or application, no access except to their flags and timer", ["instructions of notifications", "notification functions"], None, "everything reachable from the subscribed functions and the timer tick", "proof", [A_CFG]),
 "C23": P("completion injected before send returns and at every instruction after it: the following behaviour equals that of a late completion", ["transmissions analysed", "transitions"], None, SL_PROTO + "; " + MA_PROTO, assumptions=ASLAVE + AMASTER),
 "C24": P("no non-constant variable reachable from both APIs, distinct notification functions, own driver interface only", ["variables reachable from slave calls", "variables reachable from master calls", "call graph edges"], None, "all functions reachable from either API", "proof", [A_CFG]),
 "C25": P("call graph acyclic, only library, driver and application functions called; every path of every call terminates in the interpretation", ["call sites", "loops", "basic blocks analysed"], None, "all library functions (structure); " + SL_PROTO + "; " + SL_REQ + "; " + MA_CALL + "; " + MA_PROTO, assumptions=ASLAVE + AMASTER),
 "C26": P("order and arguments of the driver calls during initialisation; state after initialisation from every reachable state behaves like a fresh one", ["initialisations analysed", "abstract states"], None, SL_PROTO + "; " + MA_PROTO, assumptions=ASLAVE + AMASTER),
 "C27": P("per registration call, all addresses 0..65535: exactly the addressed table entry changes, or nothing", ["registration outcomes checked", "registration calls analysed"], None, "all addresses, three table configurations", "proof", [A_CFG]),
 "C28": P("per write confirmation: kind, slave, address, quantity of the request, exactly once, only after a matching response", ["outcomes analysed", "requests finished"], None, MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
 "C29": P("request calls invoke no driver or application function; no store into and no reference kept to the caller's array", ["request calls analysed"], None, MA_CALL + "; " + MA_PROTO, assumptions=AMASTER),
}
def explain(p): return ENGINE + "Decided here: " + PROPS[p]["rule"] + ". Scope: " + PROPS[p]["scope"] + "."

QUICK = {
 "C01": SLAVE + REGISTER + requests() + requests_big(), "C02": SLAVE + requests() + requests_big(), "C03": SLAVE + requests() + requests_big((1, 2, 3, 4)), "C04": SLAVE + requests() + requests_big((5, 6, 15, 16)),
 "C05": SLAVE + requests() + requests_big(), "C06": SLAVE + requests() + requests_big(), "C07": SLAVE + requests(), "C08": SLAVE + requests(), "C09": SLAVE + requests() + requests_big((15, 16, 3, 6)),
 "C10": CRC, "C11": two() + MIXED + calls(), "C12": calls() + one((3, 16, 6), markref=1) + two((6,), markref=1, pre=0) + TIME,
 "C13": two() + MIXED + five() + one((1, 6, 16)), "C14": two() + MIXED + five() + one((3, 15)), "C15": one((1, 2, 3, 4)) + MIXED + calls((1, 2, 3, 4)),
 "C16": two() + one() + MIXED + calls() + TIME, "C17": one() + MIXED + calls((1, 2, 3, 4)) + calls((5, 6, 15, 16)), "C18": two() + one() + MIXED + calls((3, 4, 5, 6, 15, 16)) + [x for x in calls((1, 2)) if x["opts"].get("first")], "C19": TIME + one((3, 6, 15)), "C20": one() + MIXED + calls((3, 4, 5, 6, 15, 16)),
 "C21": two() + one() + MIXED, "C22": STRUCT + SLAVE + one((6, 3)), "C23": SLAVE + one((6, 3, 15), markearly=1) + five(markearly=1) + calls((3, 4, 5, 6, 15, 16)) + [x for x in calls((1, 2)) if x["opts"].get("first")] + requests(), "C24": STRUCT + SLAVE + one((6,)), "C25": STRUCT + SLAVE + requests() + requests_big() + one((6, 3)) + calls() + TIME,
 "C26": SLAVE + one((6, 3), markre=1) + two(markre=1, pre=0), "C27": REGISTER + SLAVE, "C28": one((5, 6, 15, 16)) + MIXED + calls((5, 6, 15, 16)), "C29": calls() + one((6, 15)),
}
DEEP_M = one(KINDS, pre=2) + two((6,), pre=2)
THOROUGH = {p: [] for p in QUICK}
for p in THOROUGH:
    extra = []
    if any(x["mode"] == "slave" for x in QUICK[p]): extra.append(j("slave", deep=3))
    if any(x["variant"] == "big" and x["opts"].get("fc") == 15 for x in QUICK[p]): extra += requests_big((15,), True)
    if any(x["mode"] == "master" for x in QUICK[p]):
        base = {kk: v for x in QUICK[p] if x["mode"] == "master" for kk, v in x["opts"].items() if kk.startswith("mark")}
        extra += one(KINDS, pre=2, **base) + two((6,), pre=2, **base)
    if p in ("C02", "C06", "C07", "C05", "C01"): pass
    THOROUGH[p] = QUICK[p] + extra
def jobs(prop, tier, conf): return list((THOROUGH if tier == "thorough" else QUICK)[prop])

UB_SLAVE = {"C02", "C03", "C04", "C06", "C09"}; UB_MASTER = {"C11", "C15", "C17", "C28"}
def relevant(prop, found, rule, mode):
    """does a finding reported as `found` count against `prop`?  A path with undefined behaviour or without end
    establishes nothing about the reply or outcome that should follow on it."""
    if found == prop: return True
    if found == "C01" and rule == "memory safety": return prop in UB_SLAVE
    if found == "C27" and rule == "memory safety" and prop == "C01": return True
    if found == "C16" and rule == "memory safety": return prop in UB_MASTER
    if found == "C25" and rule == "every call returns": return (mode in ("slave", "request") and prop in {"C02", "C03", "C04", "C06", "C08"}) or (mode in ("master", "call") and prop in ("C15", "C18", "C21"))
    if found == "C06" and rule == "data reply length" and prop == "C03": return True
    if found == "C08" and rule == "ready for the next frame": return prop in ("C07", "C09")
    return False
