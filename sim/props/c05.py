"""C05: an internal failure is never turned into a wrong result."""
from .common import *

ID = "C05"
BUDGET = {"quick": (8000, 110), "thorough": (1_000_000, 2400)}
RULE = ("one seeded call made 6 times with seeded kernel failures (one, several, or persistent) at "
        "seeded points among all its kernel calls, array operators and function entries; the call "
        "must raise or return the unfaulted result, and an interrupt must reach the caller; "
        "non-trivial if at least one fault fired; distinct by event-log digest")


def generate(rng, tier):
    s = calls.gen_call(rng, fx=0.06, grad=0.1, big=rng.chance(0.15), exotic=0.08)
    trials = []
    for _ in range(6):
        tr = {"faults": [gen_fault(rng) for _ in range(rng.weighted([(1, 85), (2, 10), (3, 5)]))]}
        if rng.chance(0.25):
            tr["sticky"] = True
        trials.append(tr)
    return {"call": s, "trials": trials}


def execute(plan):
    s = plan["call"]
    want = calls.solo(s)
    names = dry_names(s)
    ambient.reset()
    v = None
    crc = 0
    fired_all = {}
    nf = 0
    steps = 0
    sim_s = 0.0
    raised = same = 0
    tr_out = None
    for k, tr in enumerate(plan["trials"]):
        loader.detach()
        pkg = calls.fresh_pkg()
        fp = fault_plan(names, tr["faults"])
        sim = core.Sim(faulty=True)
        sticky = None
        if tr.get("sticky") and fp:
            i = min(fp)
            sticky = (i, names[i], fp[i])
        with core.locks_patched(), sim.inline() as t:
            o, _ = do_call(t, pkg, s, calls.build(s), plan=fp, sticky=sticky, armed=True)
        note_outcome(sim, o)
        crc = crc_of(crc, sim.crc)
        steps += sim.step
        sim_s += sim.clock.now - sim.clock.start
        for kk, n in fault_names(sim).items():
            fired_all[kk] = fired_all.get(kk, 0) + n
        fired = t.fired
        nf += len(fired)
        if not fired:
            d = calls.confirmed_diff(o, want, s)
            if d:
                v = vio("wrong", "without any fault the result differs: %s; %s" % (calls.describe(s), d))
        else:
            what = ", ".join("%s at #%d %s" % (f[2], f[0], f[1]) for f in fired[:4])
            if hang(o):
                v = vio("hang", "after %s the call %s: %s" % (what, hang(o), calls.describe(s)))
            elif any(f[2] == "interrupt" for f in fired):
                if o.ok or (o.err != "KeyboardInterrupt"):
                    v = vio("interrupt", "an interrupt (%s) did not reach the caller: %s %s" % (
                        what, calls.describe(s), o.brief()))
            elif o.ok:
                same += 1
                if not want.ok:
                    v = vio("wrong", "a call that fails without faults returned a result after %s: "
                            "%s; %s" % (what, calls.describe(s), o.brief()))
                else:
                    d = calls.confirmed_diff(o, want, s)
                    if d:
                        v = vio("wrong", "after %s the call returned a wrong result: %s; %s" % (
                            what, calls.describe(s), d))
            else:
                raised += 1
        if v:
            tr_out = {"trial": k, "fired": fired, "points": len(names)}
            break
    st = {"steps": steps, "sim_s": sim_s, "calls": len(plan["trials"]), "faults": fired_all,
          "outcome_raised": raised, "outcome_unaffected": same, "fault_points": len(names)}
    return result(crc, v, st, nt=nf > 0, trace=tr_out)


def shrink(plan, res):
    tr = plan["trials"]
    if len(tr) > 1:
        k = (res.get("trace") or {}).get("trial")
        if k is not None:
            yield dict(plan, trials=[tr[k]])
        for x in tr:
            yield dict(plan, trials=[x])
    if len(tr[0]["faults"]) > 1:
        for f in tr[0]["faults"]:
            yield dict(plan, trials=[dict(tr[0], faults=[f])])
    if tr[0].get("sticky"):
        yield dict(plan, trials=[{"faults": tr[0]["faults"]}])
    for c in calls.simpler(plan["call"]):
        yield dict(plan, call=c)
