"""C10: gradients do not depend on when backward runs."""
import _thread

from .common import *

ID = "C10"
BUDGET = {"quick": (7000, 75), "thorough": (2_000_000, 2400)}
RULE = ("1-8 autograd graphs of torch calls, some on the same tensors; their forwards, backwards (once, repeated on a retained "
        "graph, in another thread), unrelated calls, failing calls and in-place overwrites of inputs "
        "and results are ordered by the seed; each gradient is compared with the same forward and "
        "backward run alone; non-trivial if something ran between a forward and its backward; "
        "distinct by event-log digest")


def generate(rng, tier):
    small = dict(backend="pt", layouts=False, grad=1.0, big=rng.chance(0.1), ints=False)
    base = calls.gen_call(rng, **small)
    graphs = []
    for _ in range(rng.weighted([(1, 3), (2, 4), (3, 2), (4, 1)])):
        if rng.chance(0.5):
            s = clone(base)
            s["data"]["seed"] = rng.getrandbits(32)
            if rng.chance(0.3):
                s["kw"] = calls.gen_kw(rng, s["fn"], s["data"]["n"],
                                       max(s["data"]["nref"], s["data"]["nest"]))
        else:
            s = calls.gen_call(rng, **small)
        s["grad"] = rng.choice(["est", "est", "both"])
        if rng.chance(0.3):
            s["gw"] = 1
        graphs.append(s)
        if rng.chance(0.3):             # another loss on the very same tensors
            h = next(i for i, x in enumerate(graphs) if x is s)
            q = clone(s)
            r = rng.random()
            if r < 0.3:
                q["kw"] = calls.gen_kw(rng, q["fn"], q["data"]["n"],
                                       max(q["data"]["nref"], q["data"]["nest"]))
            elif r < 0.6:
                k = calls.gen_call(rng, n=q["data"]["n"], ch=q["data"]["nref"], **small)
                if q["data"]["nref"] == q["data"]["nest"]:
                    q["fn"], q["via"], q["kw"] = k["fn"], k["via"], k["kw"]
            q["share"] = h
            graphs.append(q)
    ops = []
    for g in range(len(graphs)):
        seq = [["f", g]]
        if rng.chance(0.3):
            seq += [["b", g, "retain", how(rng, graphs[g])] for _ in range(rng.randint(1, 2))]
        r = rng.random()
        if r < 0.3:
            seq.append(["over", g, rng.choice(["ref", "est", "res"]), rng.random()])
        elif r < 0.4:
            seq.append(["step", g])
        seq.append(["b", g, rng.choice(["once", "once", "thread", "retain"]), how(rng, graphs[g])])
        ops.append(seq)
    for _ in range(rng.randint(0, 3)):
        s = clone(rng.choice(graphs))
        s["data"]["seed"] = rng.getrandbits(32)
        s.pop("grad", None)
        if rng.chance(0.3):
            s["fx"] = [calls.gen_fx(rng, s, ["nan", "inf", "zero"])]
        if rng.chance(0.2):
            s["grad"] = "est"
        ops.append([["call", s]])
    if rng.chance(0.3):
        ops.append([["nograd", rng.randrange(len(graphs))]])
    out = []
    while any(ops):
        k = rng.choice([i for i, o in enumerate(ops) if o])
        out.append(ops[k].pop(0))
    return {"graphs": graphs, "ops": out}


def how(rng, s):
    return rng.choice(["mul", "direct", "sum" if s.get("gw") else "direct"])


def bare(s):
    return {k: x for k, x in s.items() if k != "share"}


def signals(s):
    return {k: x for k, x in s.items() if k not in ("fn", "via", "kw", "kt", "gw", "swap", "share")}


def execute(plan):
    want = [calls.solo(bare(s)) for s in plan["graphs"]]
    ambient.reset()
    pkg = calls.fresh_pkg()
    sim = core.Sim()
    live = {}
    inps = {}                   # tensors of a graph, as long as they are as generated
    dirty = set()
    v = None
    cnt = {"backward": 0, "backward_raised": 0, "between": 0, "shared": 0}
    faults = {"input_overwritten": 0, "result_overwritten": 0, "backward_in_thread": 0}
    inflight = set()
    tr = []

    def spoiled(g, inputs):
        dirty.add(g)
        if inputs:
            inp = live[g][0]
            for h in [h for h, x in inps.items() if x is inp]:
                inps.pop(h)
            dirty.update(h for h, x in live.items() if x[0] is inp)
    with core.locks_patched(), sim.inline() as t:
        for op in plan["ops"]:
            g = op[1] if op[0] != "call" else None
            cnt["between"] += len(inflight - {g})
            if op[0] == "f":
                s = plan["graphs"][g]
                h = s.get("share")
                inp = inps.get(h) if h is not None and signals(plan["graphs"][h]) == signals(s) else None
                if inp is None:
                    inp = calls.build(s)
                else:
                    cnt["shared"] += 1
                inps[g] = inp
                o, res = do_call(t, pkg, {k: x for k, x in s.items() if k not in ("grad", "share")}, inp)
                note_outcome(sim, o)
                live[g] = (inp, res, [])
                inflight.add(g)
                w = calls.Outcome()
                w.ok, w.leaves, w.err, w.msg, w.multi = (want[g].ok, want[g].leaves, want[g].err,
                                                         want[g].msg, want[g].multi)
                d = hang(o) or calls.confirmed_diff(o, w, s)
                if d:
                    v = vio("forward", "forward of graph %d: %s; %s" % (g, calls.describe(s), d))
            elif op[0] == "over":
                if g in live and live[g][1] is not None:
                    inp, res, _ = live[g]
                    with torch.no_grad():
                        if op[2] == "res":
                            x = calls.leaves(res)[0]
                            x.mul_(0.5 + op[3])
                            faults["result_overwritten"] += 1
                        else:
                            x = inp.ref if op[2] == "ref" else inp.est
                            x.copy_(torch.randn(x.shape, dtype=x.dtype,
                                                generator=torch.Generator().manual_seed(1)))
                            faults["input_overwritten"] += 1
                    spoiled(g, op[2] != "res")
            elif op[0] == "step":          # an optimiser step on the estimate
                if g in live and live[g][1] is not None:
                    with torch.no_grad():
                        live[g][0].est.add_(0.25)
                    faults["input_overwritten"] += 1
                    spoiled(g, True)
            elif op[0] == "nograd":
                s = plan["graphs"][g]
                with torch.no_grad():
                    o, _ = do_call(t, pkg, {k: x for k, x in s.items() if k not in ("grad", "share")}, calls.build(s))
                note_outcome(sim, o)
            elif op[0] == "call":
                o, _ = do_call(t, pkg, op[1], calls.build(op[1]))
                note_outcome(sim, o)
            else:
                if g not in live or live[g][1] is None or want[g].grads is None:
                    inflight.discard(g)
                    continue
                inp, res, ws = live[g]
                s = plan["graphs"][g]
                for x in (inp.ref, inp.est):
                    x.grad = None
                err = [None]
                got = [None]
                retain = op[2] == "retain"

                def bw():
                    try:
                        got[0] = calls.run_backward(s, res, inp, retain_graph=retain,
                                                    how=op[3], ws=ws)
                    except Exception as e:
                        err[0] = type(e).__name__ + ": " + str(e)[:120]
                if op[2] == "thread":
                    faults["backward_in_thread"] += 1
                    done = _thread.allocate_lock()
                    done.acquire()

                    def tbody():
                        try:
                            bw()
                        finally:
                            done.release()
                    _thread.start_new_thread(tbody, ())
                    done.acquire()
                else:
                    bw()
                cnt["backward"] += 1
                sim.note(op, err[0] is not None,
                         None if got[0] is None else [None if x is None else x.tobytes()[:64] for x in got[0]])
                tr.append([op, err[0]])
                if err[0] is not None:
                    cnt["backward_raised"] += 1
                    if g not in dirty:
                        v = vio("backward", "backward of an untouched graph failed: %s; %s" % (
                            err[0], calls.describe(s)))
                else:
                    d = calls.diff_grads(got[0], want[g].grads)
                    if d and (calls.degenerate(s) or calls.unstable(s)):
                        d = None
                    elif not d:
                        q, w = calls.Outcome(), calls.Outcome()
                        q.ok, q.grads, w.grads = True, got[0], want[g].grads
                        d = calls.strict_diff(q, w, s)
                    if d:
                        v = vio("gradient", "gradient of graph %d%s differs from forward+backward run "
                                "alone: %s; %s" % (g, " (overwritten in between)" if g in dirty else "",
                                                   d, calls.describe(s)))
                if not retain:
                    live.pop(g)
                    inflight.discard(g)
            if v:
                break
    st = sim_stats(sim, calls=len(plan["ops"]), faults=faults, **cnt)
    return result(sim, v, st, nt=cnt["between"] > 0 or bool(dirty),
                  trace={"ops": plan["ops"] and tr} if v else None)



def shrink(plan, res):
    gs, ops = plan["graphs"], plan["ops"]
    for c in ddmin_list(ops):
        if c:
            yield dict(plan, ops=c)
    n = max(len(calls.simpler(g)) for g in gs)
    for j in range(n):
        p = clone(plan)
        for i, g in enumerate(gs):
            c = [x for x in calls.simpler(g) if x.get("grad")]
            if j < len(c):
                p["graphs"][i] = c[j]
        yield p
