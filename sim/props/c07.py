"""C07: batch entries are isolated from one another."""
from .common import *

ID = "C07"
BUDGET = {"quick": (9000, 75), "thorough": (2_000_000, 2400)}
RULE = ("one batched call (2-40 entries) in which a seeded subset of entries is damaged (dropout, "
        "NaN, infinity, gain, duplicated or exchanged sources, impulses, clipping) before the call "
        "or at seeded steps during it; metrics and permutation of the intact entries are compared "
        "with the undamaged run; non-trivial if the damaged run returned values; distinct by "
        "event-log digest")

DAMAGE = ["nan", "inf", "zero", "drop", "dup", "ident", "huge", "tiny", "gain", "noise", "swap",
          "bump", "const", "clip", "impulse", "ints"]
MILD = ["drop", "gain", "noise", "swap", "bump", "clip", "dup", "impulse", "ident"]


def generate(rng, tier):
    batch = rng.choice([[2], [3], [4], [2, 2], [6], [1, 3], [2, 1, 2], None, None])
    s = calls.gen_call(rng, batch=batch, big=rng.chance(0.1), ints=False, grad=0.15)
    if not s["data"]["batch"]:
        s["data"]["batch"] = [2] if s["data"]["n"] > 2500 else [rng.randint(2, 6)]
    nb = int(np.prod(s["data"]["batch"]))
    trials = []
    for _ in range(4):
        bad = sorted(rng.sample(range(nb), rng.randint(1, max(1, nb - 1))))
        kinds = MILD if rng.chance(0.6) else DAMAGE
        fx = []
        for b in bad:
            for _ in range(rng.randint(1, 3)):
                e = calls.gen_fx(rng, s, kinds)
                e["b"] = b
                e["g"] = rng.choice([1e4, 1e-4, -1.0, 2.0, 1e8])
                fx.append(e)
        tr = {"bad": bad, "fx": fx}
        if rng.chance(0.3) and "grad" not in s:
            tr["at"] = rng.choice([rng.randint(1, 20), rng.randint(1, 120)])
        trials.append(tr)
    return {"call": s, "trials": trials}


def execute(plan):
    s = plan["call"]
    want = calls.solo(s)
    nbd = len(s["data"]["batch"])
    nb = int(np.prod(s["data"]["batch"]))
    ambient.reset()
    pkg = calls.fresh_pkg()
    sim = core.Sim()
    v = None
    st = {"calls": 0, "returned": 0, "raised": 0}
    faults = {}
    tr_out = None
    with core.locks_patched(), sim.inline() as t:
        for k, tr in enumerate(plan["trials"]):
            dam = dict(s, fx=tr["fx"])
            irqs = {}
            if "at" in tr:
                inp = calls.build(s)
                ref, est = calls.values(dam)

                def h(_t, inp=inp, ref=ref, est=est):
                    for x, a in ((inp.ref, ref), (inp.est, est)):
                        y = calls.as_np(x)
                        if y.flags.writeable:
                            y[...] = a
                irqs[tr["at"]] = h
            else:
                inp = calls.build(dam)
            o, _ = do_call(t, pkg, s, inp, irqs=irqs)
            note_outcome(sim, o)
            st["calls"] += 1
            for e in tr["fx"]:
                nm = e["t"] + ("@mid-call" if "at" in tr else "")
                faults[nm] = faults.get(nm, 0) + 1
            if hang(o):
                v = vio("hang", "with damaged entries %s the call %s: %s" % (
                    tr["bad"], hang(o), calls.describe(dam)))
            elif not o.ok or not want.ok:
                st["raised"] += 1
                continue
            else:
                st["returned"] += 1
                good = [i for i in range(nb) if i not in tr["bad"]]
                po, pw = pick(o, good, nbd, nb), pick(want, good, nbd, nb)
                d = calls.diff(po, pw, s) or calls.strict_diff(po, pw, s)
                if d and (d.startswith("gradient") or s["data"].get("close")) and calls.unstable(s):
                    d = None
                if d:
                    v = vio("leak", "damage to entries %s%s changed the result of intact entries %s: %s; %s"
                            % (tr["bad"], " at step %d" % tr["at"] if "at" in tr else "", good,
                               calls.describe(dam), d))
            if v:
                tr_out = {"trial": k, "fx": tr["fx"], "at": tr.get("at")}
                break
    ss = sim_stats(sim, faults=faults, **st)
    return result(sim, v, ss, nt=st["returned"] > 0, trace=tr_out)


def pick(o, good, nbd, nb):
    q = calls.Outcome()
    q.ok, q.multi = o.ok, o.multi
    for a, k in o.leaves:
        if a.shape[:nbd] and int(np.prod(a.shape[:nbd])) == nb:
            q.leaves.append((a.reshape((nb,) + a.shape[nbd:])[good], k))
        else:
            q.leaves.append((a, k + "!batch"))
    if o.grads is not None:
        q.grads = [None if g is None else g.reshape((nb,) + g.shape[nbd:])[good] for g in o.grads]
    return q


def shrink(plan, res):
    tr = plan["trials"]
    if len(tr) > 1:
        k = (res.get("trace") or {}).get("trial")
        for x in ([tr[k]] if k is not None else tr):
            yield dict(plan, trials=[x])
        return
    t0 = tr[0]
    if "at" in t0:
        yield dict(plan, trials=[{k: v for k, v in t0.items() if k != "at"}])
    if len(t0["fx"]) > 1:
        for c in ddmin_list(t0["fx"]):
            if c:
                bad = sorted(set(e["b"] for e in c))
                yield dict(plan, trials=[dict(t0, fx=c, bad=bad)])
    for c in calls.simpler(plan["call"]):
        if c["data"]["batch"] == plan["call"]["data"]["batch"]:
            yield dict(plan, call=c)
