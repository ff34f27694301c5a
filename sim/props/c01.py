"""C01: overlapping calls behave as if each ran alone."""
from .common import *

ID = "C01"
BUDGET = {"quick": (8000, 100), "thorough": (2_000_000, 2400)}
STALL_IS_VIOLATION = True
RULE = ("2-4 simulated threads with 1-4 calls each (plus calls made re-entrantly at a step of "
        "another call), generated from the run's seed; a run is non-trivial if at least one "
        "thread switch or re-entrant call happened inside a call; distinct by event-log digest")


def gen_sched(rng, fine):
    s = _gen_sched(rng, fine)
    if rng.chance(0.3):
        s["lag"] = rng.getrandbits(32)
    return s


def _gen_sched(rng, fine):
    r = rng.random()
    if r < 0.15:
        return {"mode": "lockstep", "seed": rng.getrandbits(32),
                "k": rng.choice([1, 1, 2, 4]) * (5 if fine else 1),
                "jitter": rng.choice([0, 0, 1, 3])}
    if r < 0.4:
        return {"mode": "random", "seed": rng.getrandbits(32),
                "p": rng.choice([0.02, 0.1, 0.3, 0.6])}
    if r < 0.70:
        return {"mode": "burst", "seed": rng.getrandbits(32),
                "p": rng.choice([0.005, 0.01, 0.03, 0.1])}
    return {"mode": "pct", "seed": rng.getrandbits(32), "d": rng.randint(1, 6),
            "horizon": rng.choice([60, 200, 600]) * (8 if fine else 1)}


def vary(rng, base):
    """A call that resembles `base`: the kind a cache or shared buffer confuses."""
    s = clone(base)
    r = rng.random()
    s["data"]["seed"] = rng.getrandbits(32)
    if r < 0.45:
        pass
    elif r < 0.6:
        s["kw"] = calls.gen_kw(rng, s["fn"], s["data"]["n"], max(s["data"]["nref"], s["data"]["nest"]))
    elif r < 0.7:
        s["dt"] = "f4" if s["dt"] != "f4" else "f8"
    elif r < 0.8:
        s["data"]["n"] = max(16, s["data"]["n"] + rng.choice([-3, -1, 1, 2, 7]))
    elif r < 0.9:
        s["be"] = "pt" if s["be"] == "np" else "np"
        s.pop("lay", None)
        s.pop("grad", None)
        if s["dt"] == "i2":
            s["dt"] = "f8"
    else:
        s["data"]["seed"] = base["data"]["seed"]
        s["fx"] = [calls.gen_fx(rng, s, ["drop", "gain", "swap", "noise"])]
    return s


def gen_churn(rng):
    """One thread pauses now and then while the others go through many small calls
    that differ in their options: what a bounded cache or shared table evicts."""
    fine = rng.chance(0.25)
    cg = rng.chance(0.6)
    base = None
    while base is None or ("filter_length" not in base["kw"] and not rng.chance(0.15)):
        base = calls.gen_call(
            rng, backend=rng.choice(["np", "pt"]), big=False, n=calls.small_n(rng, 16, 60), grad=0.15, fx=0.02,
            exotic=0.02)
    nin = 0
    threads = []
    for k in range(rng.choice([2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3) if k == 0 else rng.randint(4, 9)):
            s = vary(rng, base)
            if k and rng.chance(0.7):
                s["kw"] = calls.gen_kw(rng, s["fn"], s["data"]["n"],
                                       max(s["data"]["nref"], s["data"]["nest"]))
            if cg and "filter_length" in s["kw"]:
                s["kw"].setdefault("use_cg_iter", rng.randint(1, 3))
            s["in"] = nin
            nin += 1
            ops.append(s)
        threads.append(ops)
    return {"threads": threads, "fine": fine,
            "sched": {"mode": "stall", "seed": rng.getrandbits(32),
                      "lag": rng.getrandbits(32) if rng.chance(0.5) else None,
                      "first": rng.choice([0.005, 0.01, 0.02]) / (8 if fine else 1),
                      "again": rng.choice([0, 0.001, 0.01]) / (8 if fine else 1),
                      "calls": rng.choice([2, 4, 8])}}


def generate(rng, tier):
    if rng.chance(0.25):
        return gen_churn(rng)
    nthr = rng.weighted([(2, 60), (3, 30), (4, 10)])
    fine = rng.chance(0.3)
    similar = rng.chance(0.65)
    big = rng.chance(0.15)
    kw = dict(big=big, n=None, grad=0.25, fx=0.04, exotic=0.04)
    if fine:
        kw["n"] = calls.small_n(rng, 16, 80)
    backend = rng.choice(["np", "pt", None])
    base = calls.gen_call(rng, backend=backend, **kw)
    threads = []
    nin = 0
    allops = []
    for k in range(nthr):
        ops = []
        for _ in range(rng.weighted([(1, 50), (2, 35), (3, 10), (4, 5)])):
            if allops and rng.chance(0.15):
                # the very same input objects, perhaps with another function or options
                src = rng.choice(allops)
                s = clone(src)
                s.pop("irq", None)
                if rng.chance(0.5) and "grad" not in s:
                    s["kw"] = calls.gen_kw(rng, s["fn"], s["data"]["n"],
                                           max(s["data"]["nref"], s["data"]["nest"]))
                if "grad" in s:
                    s["in"] = nin
                    nin += 1
            else:
                s = vary(rng, base) if similar else calls.gen_call(
                    rng, backend=backend, **dict(kw, n=kw["n"] and calls.small_n(rng, 16, 80)))
                s["in"] = nin
                nin += 1
            if rng.chance(0.25):
                q = vary(rng, s if similar else base)
                q.pop("irq", None)
                q.pop("grad", None)
                q.pop("in", None)
                s["irq"] = [rng.choice([rng.randint(1, 40), rng.randint(1, 200)]), q]
            ops.append(s)
            allops.append(s)
        threads.append(ops)
    return {"threads": threads, "sched": gen_sched(rng, fine), "fine": fine}


def execute(plan):
    pkg = None
    ops = [(ti, oi, s) for ti, th in enumerate(plan["threads"]) for oi, s in enumerate(th)]

    def bare(s):
        return {k: v for k, v in s.items() if k not in ("irq", "in")}

    want = {}
    for ti, oi, s in ops:
        want[ti, oi] = calls.solo(bare(s))
        if "irq" in s:
            want[ti, oi, "irq"] = calls.solo(bare(s["irq"][1]))
    ambient.reset()
    pkg = calls.fresh_pkg()
    inputs = {}
    for ti, oi, s in ops:
        if s["in"] not in inputs:
            inputs[s["in"]] = calls.build(bare(s))
    sim = core.Sim(policy=core.make_policy(plan["sched"], len(plan["threads"])),
                   fine=plan["fine"])
    got = {}
    nested = [0]

    def body(ti):
        def run(t):
            for oi, s in enumerate(plan["threads"][ti]):
                sim.boundary(t)
                irqs = {}
                if "irq" in s:
                    at, q = s["irq"]

                    def handler(_t, q=q, oi=oi):
                        nested[0] += 1
                        o, _ = calls.call(pkg, bare(q), calls.build(bare(q)))
                        got[ti, oi, "irq"] = o
                    irqs[at] = handler
                o, _ = do_call(t, pkg, bare(s), inputs[s["in"]], irqs=irqs)
                sim.note(ti, oi)
                note_outcome(sim, o)
                got[ti, oi] = o
        return run
    for ti in range(len(plan["threads"])):
        sim.spawn(body(ti))
    with core.locks_patched():
        sim.run_threads()
    st = sim_stats(sim, calls=len(ops), reentrant_calls=nested[0],
                   faults={"preemption": sim.switches, "reentrant_call": nested[0],
                           "lag": sim.lags})
    v = None
    if sim.stalled:
        v = vio("stall", "the run stopped making progress in real time")
    for key in sorted(want, key=str):
        if v:
            break
        ti, oi = key[:2]
        s = plan["threads"][ti][oi]
        if len(key) == 3:
            s = s["irq"][1]
            if key not in got:
                continue
        who = "thread %d call %d%s" % (ti, oi, " (re-entrant)" if len(key) == 3 else "")
        if key not in got:
            v = vio("lost", "%s never completed: %s" % (who, calls.describe(s)))
            break
        o = got[key]
        if hang(o):
            v = vio("hang", "%s %s: %s" % (who, hang(o), calls.describe(s)))
            break
        d = calls.confirmed_diff(o, want[key], bare(s))
        if d:
            v = vio("result", "%s differs from the same call run alone: %s; %s" % (
                who, calls.describe(s), d))
    if v is None and core.locks_held():
        v = vio("lock", "a lock is still held after every call completed")
    return result(sim, v, st, nt=bool(sim.switches or nested[0]), sched=sim.decisions,
                  trace={"decisions": sim.decisions[:400], "switches": sim.switches,
                         "meaning": "[step, thread switched to]"} if v else None)


def shrink(plan, res):
    th = plan["threads"]

    def seeds(p):
        yield p
        if p["sched"]["mode"] != "explicit":
            for k in range(4):
                q = clone(p)
                q["sched"]["seed"] = crc_of(p["sched"]["seed"], k)
                yield q
    if len(th) > 2:
        for k in range(len(th)):
            p = clone(plan)
            del p["threads"][k]
            yield from seeds(p)
    if len(th) == 2:
        for k in range(2):
            p = clone(plan)
            p["threads"] = [p["threads"][k]]
            yield p
    for a in range(len(th)):
        for b in range(len(th[a])):
            if len(th[a]) > 1:
                p = clone(plan)
                del p["threads"][a][b]
                yield from seeds(p)
            if "irq" in th[a][b]:
                p = clone(plan)
                del p["threads"][a][b]["irq"]
                yield from seeds(p)
    if plan["fine"]:
        p = clone(plan)
        p["fine"] = False
        yield from seeds(p)
    # simplify the calls, all alike first
    for a in range(len(th)):
        for b in range(len(th[a])):
            for c in calls.simpler(th[a][b]):
                p = clone(plan)
                p["threads"][a][b] = c
                yield p


def concretise(plan, res):
    if plan["sched"]["mode"] == "explicit" or "sched" not in res:
        return None
    p = clone(plan)
    p["sched"] = {"mode": "explicit", "decisions": res["sched"],
                  "lag": plan["sched"].get("lag")}
    return p


def shrink_schedule(plan):
    for d in ddmin_list(plan["sched"]["decisions"]):
        p = clone(plan)
        p["sched"]["decisions"] = d
        yield p
