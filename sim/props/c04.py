"""C04: a call leaves no trace in the process, even when it fails."""
import random as _random

from .common import *
from .c01 import gen_sched

ID = "C04"
BUDGET = {"quick": (5000, 80), "thorough": (1_000_000, 2400)}
STALL_IS_VIOLATION = True
RULE = ("1-5 calls that succeed, fail on their own (bad shapes, options, contents) or fail at an "
        "injected point (kernel failure, out of memory, interrupt), some interrupted by a signal "
        "handler that makes a call itself, sequentially or in 2-3 "
        "simulated threads, under seeded initial settings; settings and held locks are compared "
        "after each call, and later calls with the same calls made alone; non-trivial if at least "
        "one call failed or threads overlapped; distinct by event-log digest")

INIT = ["rng", "npo", "err_ignore", "err_warn", "warnfilter", "gcoff", "recursion", "nograd", "f64"]


def generate(rng, tier):
    threaded = rng.chance(0.4)
    n = 1 if threaded else rng.weighted([(1, 3), (2, 4), (3, 2), (5, 1)])
    small = dict(fx=0.25, grad=0.15, big=rng.chance(0.15), exotic=0.08)
    ths = []
    similar = rng.chance(0.75 if threaded else 0.5)
    pf = 0.3 if threaded else 0.6
    base = calls.gen_call(rng, **small)
    for _ in range(rng.randint(2, 3) if threaded else 1):
        ops = []
        for _ in range(rng.randint(1, 2) if threaded else n):
            if similar:
                s = clone(base)
                s["data"]["seed"] = rng.getrandbits(32)
            else:
                s = calls.gen_call(rng, **small)
            r = rng.random()
            if r < pf:
                s["faults"] = [gen_fault(rng) for _ in range(rng.weighted([(1, 8), (2, 2)]))]
            elif r < pf + 0.15:
                # a signal handler that makes a call of its own (its input may be bad)
                q = clone(base) if rng.chance(0.7) else calls.gen_call(rng, **small)
                q.pop("grad", None)
                q["data"]["seed"] = rng.getrandbits(32)
                if rng.chance(0.2):
                    q["bad"] = rng.choice(["shape", "kw", "len", "type"])
                s["irq"] = [rng.choice([rng.randint(1, 40), rng.randint(1, 200)]), q]
            elif r < pf + 0.27:
                s["bad"] = rng.choice(["shape", "kw", "len", "type"])
                s.pop("grad", None)
            ops.append(s)
        ths.append(ops)
    # probes: later calls that must be unaffected
    probes = []
    for _ in range(rng.randint(1, 2)):
        src = rng.choice(rng.choice(ths))
        p = {k: v for k, v in clone(src).items() if k not in ("faults", "bad", "irq")}
        if rng.chance(0.4):
            p["data"]["seed"] = rng.getrandbits(32)
        probes.append(p)
    init = [x for x in INIT if rng.chance(0.15)]
    return {"threads": ths, "threaded": threaded, "probes": probes, "init": init,
            "sched": gen_sched(rng, False)}


def bare(s):
    return {k: v for k, v in s.items() if k not in ("faults", "bad", "irq")}


def set_init(init):
    import gc
    import warnings
    if "rng" in init:
        np.random.seed(3)
        torch.manual_seed(3)
        _random.seed(3)
    if "npo" in init:
        np.set_printoptions(precision=3)
        torch.set_printoptions(precision=2)
    if "err_warn" in init:
        np.seterr(all="warn")
    if "err_ignore" in init:
        np.seterr(all="ignore")
    if "warnfilter" in init:
        warnings.filterwarnings("ignore", message="zz")
    if "gcoff" in init:
        gc.set_threshold(900, 7, 7)
    if "recursion" in init:
        sys.setrecursionlimit(5000)
    if "nograd" in init:
        torch.set_grad_enabled(False)
    if "f64" in init:
        torch.set_default_dtype(torch.float64)


import sys


def solo_under(spec, init):
    if not init:
        return calls.solo(spec)
    saved = loader.detach()
    try:
        pkg = calls.fresh_pkg()
        with core.locks_patched():
            set_init(init)
            o, _ = calls.call(pkg, spec, calls.build(spec))
    finally:
        loader.attach(saved)
        ambient.reset()
    return o


def execute(plan):
    from .c02 import spoil
    ths = plan["threads"]
    init = plan["init"]
    want_probe = [solo_under(p, init) for p in plan["probes"]]
    names = {}
    want = {}
    for a, ops in enumerate(ths):
        for b, s in enumerate(ops):
            if s.get("faults"):
                names[a, b] = dry_names(bare(s))
            elif not s.get("bad"):
                want[a, b] = solo_under(bare(s), [x for x in init if x != "nograd"]
                                        if plan["threaded"] else init)
    ambient.reset()
    pkg = calls.fresh_pkg()
    # load whatever the package loads lazily before the settings are recorded
    set_init(init)
    inputs = {(a, b): calls.build(bare(s)) for a, ops in enumerate(ths) for b, s in enumerate(ops)}
    inputs.update({(a, b, "irq"): calls.build(bare(s["irq"][1])) for a, ops in enumerate(ths)
                   for b, s in enumerate(ops) if "irq" in s})
    nested = [0]
    probe_in = [calls.build(p) for p in plan["probes"]]
    sim = core.Sim(policy=core.make_policy(plan["sched"], len(ths)) if plan["threaded"] else None,
                   faulty=True)
    outs = {}
    bad = []

    def one(t, a, b):
        s = ths[a][b]
        inp = inputs[a, b]
        before_t = ambient.thread_snapshot()
        before = None if plan["threaded"] else ambient.snapshot()
        if s.get("bad"):
            sp, i2 = spoil(bare(s), inp, s["bad"])
            o, _ = do_call(t, pkg, sp, i2)
        else:
            fp = fault_plan(names.get((a, b)), s.get("faults") or [])
            irqs = {}
            if "irq" in s:
                at, q = s["irq"]
                qi = inputs[a, b, "irq"]

                def handler(_t, q=q, qi=qi):
                    nested[0] += 1
                    if q.get("bad"):
                        calls.call(pkg, *spoil(bare(q), qi, q["bad"]))
                    else:
                        calls.call(pkg, bare(q), qi)
                irqs[at] = handler
            o, _ = do_call(t, pkg, bare(s), inp, plan=fp, armed=bool(fp), irqs=irqs)
        outs[a, b] = o
        sim.note(a, b)
        note_outcome(sim, o)
        d = ambient.diff(before_t, ambient.thread_snapshot())
        if before is not None:
            d += [x for x in ambient.diff(before, ambient.snapshot()) if x not in d]
        if d:
            bad.append((a, b, o, d))
        if not plan["threaded"] and core.locks_held():
            bad.append((a, b, o, ["a lock is still held"]))

    base = ambient.snapshot()
    with core.locks_patched():
        if plan["threaded"]:
            def body(a):
                def run(t):
                    for b in range(len(ths[a])):
                        sim.boundary(t)
                        one(t, a, b)
                return run
            for a in range(len(ths)):
                sim.spawn(body(a))
            sim.run_threads()
        else:
            with sim.inline() as t:
                for b in range(len(ths[0])):
                    one(t, 0, b)
                    if bad:
                        break
    v = None
    if sim.stalled:
        return result(sim, vio("stall", "the run stopped making progress in real time"),
                      sim_stats(sim))
    if bad:
        a, b, o, d = bad[0]
        v = vio("trace", "after a call that %s, settings changed: %s; call %s" % (
            "returned" if o.ok else "raised %s" % o.err, "; ".join(d)[:300],
            calls.describe(bare(ths[a][b]))))
    if v is None:
        end = ambient.snapshot()
        d = ambient.diff(base, end)
        if d:
            v = vio("trace", "after all calls ended, settings changed: %s; calls %s" % (
                "; ".join(d)[:300], [calls.describe(bare(s)) for ops in ths for s in ops]))
        elif core.locks_held():
            v = vio("trace", "a lock is still held after every call ended")
    if v is None:
        for (a, b), o in sorted(outs.items()):
            if hang(o):
                v = vio("later", "call %d of thread %d %s after an earlier failure: %s" % (
                    b, a, hang(o), calls.describe(bare(ths[a][b]))))
                break
            if (a, b) in want:
                d = calls.confirmed_diff(o, want[a, b], bare(ths[a][b]))
                if d:
                    v = vio("later", "call %d of thread %d is affected by an earlier call: %s; %s" % (
                        b, a, calls.describe(bare(ths[a][b])), d))
                    break
    if v is None:
        psim = core.Sim()
        with core.locks_patched(), psim.inline() as t:
            for p, w, inp in zip(plan["probes"], want_probe, probe_in):
                o, _ = do_call(t, pkg, p, inp)
                sim.note("probe")
                note_outcome(sim, o)
                d = hang(o) or calls.confirmed_diff(o, w, p)
                if d:
                    v = vio("later", "a later call is affected: %s; %s" % (calls.describe(p), d))
                    break
    failed = sum(1 for o in outs.values() if not o.ok)
    st = sim_stats(sim, calls=len(outs) + len(plan["probes"]), failed_calls=failed,
                   settings_compared=len(base), faults=dict(
                       fault_names(sim), preemption=sim.switches, reentrant_call=nested[0]))
    tr = [[t.tid, t.fired] for t in sim.tasks] if v else None
    return result(sim, v, st, nt=bool(failed or sim.switches or nested[0]), sched=sim.decisions,
                  trace={"faults": tr, "decisions": sim.decisions[:400]} if v else None)


def shrink(plan, res):
    ths = plan["threads"]
    if len(ths) > 1:
        for k in range(len(ths)):
            p = clone(plan)
            del p["threads"][k]
            if len(p["threads"]) == 1:
                p["threaded"] = False
            yield p
    for a in range(len(ths)):
        for b in range(len(ths[a])):
            if len(ths[a]) > 1:
                p = clone(plan)
                del p["threads"][a][b]
                yield p
            if len(ths[a][b].get("faults") or []) > 1:
                p = clone(plan)
                p["threads"][a][b]["faults"] = p["threads"][a][b]["faults"][:1]
                yield p
    for a in range(len(ths)):
        for b in range(len(ths[a])):
            if "irq" in ths[a][b]:
                p = clone(plan)
                del p["threads"][a][b]["irq"]
                yield p
    if plan["init"]:
        yield dict(plan, init=[])
    if len(plan["probes"]) > 1:
        for x in plan["probes"]:
            yield dict(plan, probes=[x])
    for a in range(len(ths)):
        for b in range(len(ths[a])):
            for c in calls.simpler(ths[a][b]):
                p = clone(plan)
                p["threads"][a][b] = c
                yield p


def concretise(plan, res):
    if not plan["threaded"] or plan["sched"]["mode"] == "explicit" or "sched" not in res:
        return None
    p = clone(plan)
    p["sched"] = {"mode": "explicit", "decisions": res["sched"],
                  "lag": plan["sched"].get("lag")}
    return p


def shrink_schedule(plan):
    for d in ddmin_list(plan["sched"]["decisions"]):
        p = clone(plan)
        p["sched"]["decisions"] = d
        yield p
