"""C15: metrics do not depend on how work is batched, ordered or retried."""
from .common import *
from .c01 import gen_sched, concretise, shrink_schedule     # noqa: F401

ID = "C15"
BUDGET = {"quick": (6000, 75), "thorough": (2_000_000, 2400)}
STALL_IS_VIOLATION = True
RULE = ("an evaluation farm: 2-9 recordings of one format, grouped by the seed into batched jobs of "
        "any leading shape (views of one corpus, gathered copies or reused staging buffers), some "
        "duplicated, served by 1-3 simulated workers; workers are killed at seeded steps or suffer "
        "kernel failures, their jobs are requeued, jobs that fail are split; every result delivered "
        "for a recording is compared with evaluating that recording alone; non-trivial if some job "
        "held more than one recording; distinct by event-log digest")


def gen_shape(rng, k):
    opts = [[k], [k], [1, k], [k, 1]]
    for a in range(2, k):
        if k % a == 0:
            opts += [[a, k // a], [a, k // a], [1, a, k // a]]
    if k == 1:
        opts = [[], [1], [1, 1]]
    return rng.choice(opts)


def generate(rng, tier):
    n = rng.randint(2, 9)
    s = calls.gen_call(rng, batch=[], big=rng.chance(0.06), layouts=False, rect=0.25, ints=True)
    s["data"].pop("gain", None)
    recs = []
    shared = rng.getrandbits(32) if rng.chance(0.25) else None      # many systems, one reference
    for _ in range(n):
        r = {"seed": rng.getrandbits(32)}
        if shared is not None and rng.chance(0.8):
            r["rseed"] = shared
        if rng.chance(0.12):
            r["fx"] = [calls.gen_fx(rng, s, ["nan", "inf", "zero", "drop", "dup", "noise", "bump",
                                             "gain", "swap"])]
            r["fx"][0]["b"] = 0
        elif rng.chance(0.2):
            r["gain"] = rng.choice([1e-2, 1e2, 7.0])
        recs.append(r)
    jobs = []
    cover = list(range(n))
    rng.shuffle(cover)
    while cover:
        k = min(len(cover), rng.weighted([(1, 2), (2, 4), (3, 3), (4, 3), (6, 2)]))
        jobs.append({"items": cover[:k]})
        cover = cover[k:]
    for _ in range(rng.randint(0, 3)):          # duplicated work, overlapping groups
        k = rng.randint(1, min(n, 4))
        jobs.append({"items": [rng.randrange(n) for _ in range(k)]})
    if rng.chance(0.12) and s["data"]["n"] <= 300:          # one large job
        k = rng.randint(10, 70)
        jobs.append({"items": [rng.randrange(n) for _ in range(k)]})
    for j in jobs:
        j["shape"] = gen_shape(rng, len(j["items"]))
        j["src"] = rng.choice(["gather", "gather", "staging", "corpus"])
        if j["src"] == "corpus":                # a slice of the corpus, as a view
            step = rng.choice([1, 1, 2, -1])
            k = len(j["items"])
            a = rng.randrange(n)
            idx = [a + step * q for q in range(k)]
            idx = [q for q in idx if 0 <= q < n]
            j["items"] = idx
            j["slice"] = [a, len(idx), step]
            j["shape"] = [len(idx)]
        if rng.chance(0.2):
            j["crash"] = [rng.choice([rng.randint(1, 30), rng.randint(1, 150)])]
            if rng.chance(0.3):
                j["crash"].append(rng.randint(1, 80))
        elif rng.chance(0.12):
            j["kernel"] = [rng.choice([rng.randint(0, 10), rng.randint(0, 60)]),
                           rng.choice(["oom", "kernel"])]
    rng.shuffle(jobs)
    return {"call": s, "recs": recs, "jobs": jobs,
            "threads": [[]] * rng.weighted([(1, 4), (2, 4), (3, 2)]),
            "sched": gen_sched(rng, False), "fine": False}


def rec_spec(s, r):
    q = clone(s)
    q["data"]["seed"] = r["seed"]
    for k in ("gain", "rseed"):
        if k in r:
            q["data"][k] = r[k]
    if r.get("fx"):
        q["fx"] = r["fx"]
    return q


def split(o, shape, k):
    """Outcome of each of the k recordings of a job."""
    out = []
    nbd = len(shape)
    for i in range(k):
        q = calls.Outcome()
        q.ok, q.multi = True, o.multi
        for a, kind in o.leaves:
            if tuple(a.shape[:nbd]) != tuple(shape):
                q.leaves.append((a, kind + "!batch"))
            else:
                q.leaves.append((a.reshape((k,) + a.shape[nbd:])[i], kind))
        out.append(q)
    return out


def execute(plan):
    s = plan["call"]
    specs = [rec_spec(s, r) for r in plan["recs"]]
    want = [calls.solo(q) for q in specs]
    vals = [calls.values(q) for q in specs]
    ambient.reset()
    pkg = calls.fresh_pkg()
    be = s["be"]
    corpus = [calls.one(np.stack([x[k] for x in vals]), "C", be)[0] for k in (0, 1)]
    kernelf = any("kernel" in j for j in plan["jobs"])
    sim = core.Sim(policy=core.make_policy(plan["sched"], len(plan["threads"])), fine=False,
                   faulty=kernelf)
    queue = [dict(j, try_=0) for j in plan["jobs"]]
    got = []                    # [recording, outcome, job description]
    stat = {"jobs": 0, "requeued": 0, "split": 0, "delivered": 0, "batched": 0}
    faults = {"preemption": 0, "worker_crash": 0, "kernel": 0, "duplicate": 0, "bad_recording": 0}

    def body(t):
        staging = {}
        while True:
            sim.boundary(t)
            if not queue:
                return
            j = queue.pop(0)
            items, shape = j["items"], tuple(j["shape"])
            stat["jobs"] += 1
            arrs = []
            for k in (0, 1):
                chans = vals[0][k].shape
                if j["src"] == "corpus" and "slice" in j:
                    a, m, step = j["slice"]
                    if be == "np":
                        v = corpus[k][a::step][:m] if step > 0 else corpus[k][a::-1][:m]
                    elif step > 0:
                        v = corpus[k][a::step][:m]
                    else:
                        v = corpus[k][[a + step * q for q in range(m)]]
                else:
                    data = np.stack([vals[i][k] for i in items]).reshape(shape + chans)
                    key = (k, shape)
                    if j["src"] == "staging" and key in staging:
                        v = staging[key]
                        calls.as_np(v)[...] = data
                    else:
                        v = calls.one(data, "C", be)[0]
                        if j["src"] == "staging":
                            staging[key] = v
                arrs.append(v)
            inp = calls.Inputs(arrs[0], arrs[1], [], be)
            irqs = {}
            crash = j.get("crash") or []
            if j["try_"] < len(crash):
                def die(_t):
                    faults["worker_crash"] += 1
                    raise KeyboardInterrupt("simulated")
                irqs[crash[j["try_"]]] = die
            fplan = None
            if "kernel" in j and j["try_"] == 0:
                fplan = {j["kernel"][0]: j["kernel"][1]}
            n0 = len(t.fired)
            c0 = faults["worker_crash"]
            q = clone(s)
            q["data"]["batch"] = list(shape)
            o, _ = do_call(t, pkg, q, inp, irqs=irqs, plan=fplan, armed=bool(fplan))
            sim.note(t.tid, items, list(shape))
            note_outcome(sim, o)
            faults["kernel"] += len(t.fired) - n0
            broke = len(t.fired) > n0 or faults["worker_crash"] > c0
            desc = "job %s shape %s src %s try %d worker %d" % (items, list(shape), j["src"],
                                                               j["try_"], t.tid)
            if hang(o):
                got.append([items[0], o, desc])
            elif not o.ok and broke:
                stat["requeued"] += 1
                queue.append(dict(j, try_=j["try_"] + 1))
                if o.err == "KeyboardInterrupt":
                    staging.clear()             # the worker restarts with empty memory
            elif not o.ok and len(items) > 1:
                stat["split"] += 1
                for i in items:
                    queue.append({"items": [i], "shape": [], "src": "gather", "try_": 9})
            elif not o.ok:
                got.append([items[0], o, desc])
            else:
                stat["batched"] += int(len(items) > 1)
                stat["delivered"] += len(items)
                for i, p in zip(items, split(o, shape, len(items))):
                    got.append([i, p, desc])

    for _ in plan["threads"]:
        sim.spawn(body)
    with core.locks_patched():
        sim.run_threads()
    faults["preemption"] = sim.switches
    faults["bad_recording"] = sum(1 for r in plan["recs"] if r.get("fx"))
    seen = {}
    v = None
    if sim.stalled:
        v = vio("stall", "the farm stopped making progress in real time")
    for i, o, desc in got:
        if v:
            break
        seen[i] = seen.get(i, 0) + 1
        if hang(o):
            v = vio("hang", "%s: %s; %s" % (desc, hang(o), calls.describe(specs[i])))
            break
        d = calls.confirmed_diff(o, want[i], specs[i])
        if d and not calls.unstable(specs[i]):
            v = vio("batching", "recording %d in %s differs from being evaluated alone: %s; %s" % (
                i, desc, calls.describe(specs[i]), d))
    if v is None:
        lost = [i for j in plan["jobs"] for i in j["items"] if i not in seen]
        if lost:
            v = vio("lost", "recordings %s were never evaluated" % lost)
    faults["duplicate"] = sum(n - 1 for n in seen.values())
    st = sim_stats(sim, faults=faults, **stat)
    return result(sim, v, st, nt=stat["batched"] > 0, sched=sim.decisions,
                  trace={"deliveries": [[i, dsc] for i, _, dsc in got],
                         "decisions": sim.decisions[:300]} if v else None)


def shrink(plan, res):
    js = plan["jobs"]

    def seeds(p):
        yield p
        if p["sched"]["mode"] != "explicit" and len(p["threads"]) > 1:
            for k in range(3):
                q = clone(p)
                q["sched"]["seed"] = crc_of(p["sched"]["seed"], k)
                yield q
    if len(plan["threads"]) > 1:
        p = clone(plan)
        p["threads"] = [[]]
        yield p
    for c in ddmin_list(js):
        if c:
            yield from seeds(dict(clone(plan), jobs=c))
    for i, j in enumerate(js):
        for k in ("crash", "kernel"):
            if k in j:
                p = clone(plan)
                del p["jobs"][i][k]
                yield from seeds(p)
        if j["src"] != "gather":
            p = clone(plan)
            p["jobs"][i] = dict({k: x for k, x in j.items() if k != "slice"}, src="gather",
                                shape=[len(j["items"])])
            yield p
        if len(j["items"]) > 1 and "slice" not in j:
            for c in ddmin_list(j["items"]):
                if c:
                    p = clone(plan)
                    p["jobs"][i] = dict(j, items=c, shape=[len(c)])
                    yield p
    for i, r in enumerate(plan["recs"]):
        for k in ("fx", "gain", "rseed"):
            if k in r:
                p = clone(plan)
                del p["recs"][i][k]
                yield p
    for c in calls.simpler(plan["call"]):
        if not c["data"]["batch"]:
            yield dict(clone(plan), call=c)
