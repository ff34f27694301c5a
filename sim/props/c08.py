"""C08: results belong to the caller."""
from .common import *

ID = "C08"
BUDGET = {"quick": (8000, 85), "thorough": (2_000_000, 2400)}
RULE = ("a history of 2-10 calls interleaved with in-place changes to earlier results and inputs; "
        "after every operation all results, inputs and their memory ranges are compared with the "
        "ledger of what the caller did to them, and each call with the same call made alone; "
        "non-trivial if at least two calls were made; distinct by event-log digest")
TOPS = list(calls.TOP) + ["pairwise_sdr_loss", "pairwise_si_sdr_loss"]


def generate(rng, tier):
    be = rng.choice(["np", "pt", None])
    small = rng.chance(0.7)
    kw = dict(backend=be, fx=0.06, big=False, grad=0.0)
    if small:
        kw["n"] = calls.small_n(rng, 16, 90)

    def gen():
        return calls.gen_call(rng, fn=rng.weighted(
            [("bss_eval_sources", 4), ("sdr", 4), ("sdr_loss", 3), ("sdr_pit_loss", 2),
             ("si_bss_eval_sources", 3), ("si_sdr", 2), ("si_sdr_loss", 2), ("si_sdr_pit_loss", 1),
             ("pairwise_sdr_loss", 1), ("pairwise_si_sdr_loss", 1)]), **kw)
    ring = rng.chance(0.02)             # a ring of buffers comes round only after many calls
    if ring:
        kw.update(n=calls.small_n(rng, 16, 60), ch=rng.randint(1, 3), batch=rng.choice([[], [], [2]]))
    base = gen()
    ops = []
    ncalls = 0
    for _ in range(rng.randint(60, 420) if ring else rng.randint(3, 14)):
        r = rng.random() * (0.62 if ring else 1.0)
        if ncalls == 0 or r < 0.55:
            if rng.chance(0.6):
                s = clone(base)
                if rng.chance(0.6):
                    s["data"]["seed"] = rng.getrandbits(32)
                if rng.chance(0.15):
                    s["reuse"] = rng.randrange(max(1, ncalls))
            else:
                s = gen()
            ops.append(["call", s])
            ncalls += 1
        elif r < 0.82:
            ops.append(["scribble", rng.randrange(ncalls), rng.randrange(4), rng.random()])
        elif r < 0.92:
            ops.append(["input", rng.randrange(ncalls), rng.random()])
        else:
            ops.append(["drop", rng.randrange(ncalls)])
    return {"ops": ops}


def span(x):
    """(first byte, past last byte) of the memory behind a value."""
    if isinstance(x, torch.Tensor):
        st = x.untyped_storage()
        return st.data_ptr(), st.data_ptr() + st.nbytes()
    b = x
    while isinstance(b.base, np.ndarray):
        b = b.base
    lo, hi = np.lib.array_utils.byte_bounds(b) if hasattr(np.lib, "array_utils") else np.byte_bounds(b)
    return lo, hi


def mem(x):
    return calls.as_np(x)


def execute(plan):
    want = {}
    nc = 0
    for op in plan["ops"]:
        if op[0] == "call":
            want[nc] = calls.solo(bare(op[1]))
            nc += 1
    ambient.reset()
    pkg = calls.fresh_pkg()
    sim = core.Sim()
    res = []          # per call: list of live leaves or None
    ledger = []       # per call: list of expected contents
    inputs = []
    in_copy = []
    v = None
    faults = {"result_overwritten": 0, "input_overwritten": 0, "result_dropped": 0}
    tr = []
    pool = {}         # calls whose results are cut from a block that holds other calls' results

    def check(where):
        for ci, ls in enumerate(res):
            if not ls:
                continue
            for k, x in enumerate(ls):
                if mem(x).tobytes() != ledger[ci][k]:
                    return "value %d returned by call %d changed after %s" % (k, ci, where)
        for ci, inp in enumerate(inputs):
            if inp is None:
                continue
            for k in (0, 1):
                a = mem((inp.ref, inp.est)[k])
                if a.tobytes() != in_copy[ci][k]:
                    return "input %d of call %d changed after %s" % (k, ci, where)
        return None

    def mem_disjoint(ci):
        mine = res[ci] or []
        for k, x in enumerate(mine):
            a = span(x)
            if a[0] == a[1]:
                continue
            others = [("input %d of call %d" % (q, cj), y) for cj, inp in enumerate(inputs)
                      if inp is not None for q, y in enumerate((inp.ref, inp.est))]
            others += [("value %d of call %d" % (q, cj), y) for cj, ls in enumerate(res) if ls
                       for q, y in enumerate(ls) if (cj, q) != (ci, k)]
            for nm, y in others:
                b = span(y)
                if a[0] < b[1] and b[0] < a[1]:
                    if shares(x, y):
                        return "value %d of call %d shares memory with %s" % (k, ci, nm)
                    if nm.startswith("value") and not nm.endswith(" call %d" % ci):
                        pool[ci] = a[1] - a[0]
        return None

    with core.locks_patched(), sim.inline() as t:
        for i, op in enumerate(plan["ops"]):
            d = None
            if op[0] == "call":
                s = bare(op[1])
                ru = op[1].get("reuse")
                inp = None
                if ru is not None and ru < len(inputs) and inputs[ru] is not None and \
                        plan_spec(plan, ru) == s and in_copy[ru] == [mem(x).tobytes() for x in
                                                                    _pristine(s)]:
                    inp = inputs[ru]
                if inp is None:
                    inp = calls.build(s)
                o, live = do_call(t, pkg, s, inp)
                note_outcome(sim, o)
                ci = len(res)
                inputs.append(inp)
                in_copy.append([mem(inp.ref).tobytes(), mem(inp.est).tobytes()])
                if o.ok:
                    ls = calls.leaves(live)
                    res.append(ls)
                    ledger.append([mem(x).tobytes() for x in ls])
                else:
                    res.append(None)
                    ledger.append(None)
                dd = hang(o) or calls.confirmed_diff(o, want[ci], s)
                if dd:
                    v = vio("result", "call %d: %s; %s" % (ci, calls.describe(s), dd))
                elif o.ok:
                    for k, x in enumerate(ls):
                        if isinstance(x, np.ndarray) and not x.flags.writeable:
                            v = vio("readonly", "value %d of %s is not writable" % (
                                k, calls.describe(s)))
                        elif isinstance(x, torch.Tensor) and x.numel() > 1 and 0 in [
                                st for st, n in zip(x.stride(), x.shape) if n > 1]:
                            v = vio("readonly", "value %d of %s is an expanded view" % (
                                k, calls.describe(s)))
                    dd = mem_disjoint(ci)
                    if dd and v is None:
                        v = vio("alias", "%s: %s" % (dd, calls.describe(s)))
                where = "call %d" % ci
                tr.append(["call", ci, calls.describe(s)])
            elif op[0] == "scribble":
                ci = op[1] % len(res)
                where = "overwriting a result of call %d" % ci
                if res[ci]:
                    k = op[2] % len(res[ci])
                    x = res[ci][k]
                    a = mem(x)
                    if isinstance(x, np.ndarray) and x.ndim or isinstance(x, torch.Tensor):
                        a[...] = (77 if a.dtype.kind in "iu" else -12345.5 * (1 + op[3]))
                        ledger[ci][k] = a.tobytes()
                        faults["result_overwritten"] += 1
                        tr.append(["scribble", ci, k])
            elif op[0] == "input":
                ci = op[1] % len(res)
                where = "overwriting an input of call %d" % ci
                if inputs[ci] is not None:
                    for q, x in enumerate((inputs[ci].ref, inputs[ci].est)):
                        a = mem(x)
                        if a.flags.writeable:
                            a[...] = (np.asarray(op[2] * 100)).astype(a.dtype)
                    in_copy[ci] = [mem(inputs[ci].ref).tobytes(), mem(inputs[ci].est).tobytes()]
                    for cj, inp in enumerate(inputs):
                        if inp is not None:
                            in_copy[cj] = in_copy[ci] if inp is inputs[ci] else in_copy[cj]
                    faults["input_overwritten"] += 1
                    tr.append(["input", ci])
            else:
                ci = op[1] % len(res)
                res[ci] = None
                inputs[ci] = None
                where = "dropping the results of call %d" % ci
                faults["result_dropped"] += 1
                tr.append(["drop", ci])
            if v is None:
                d = check(where)
                if d:
                    v = vio("changed", d + ": " + str([x for x in tr if x[0] == "call"])[:300])
            if v:
                break
        if pool and v is None:
            # not wrong in itself; see what happens when the block is used up
            ci = max(pool)
            s = plan_spec(plan, ci)
            per = max(1, min(len(x) for x in ledger[ci] if x)) if ledger[ci] else 8
            for n in range(int(min(5000, 1.5 * pool[ci] / per + 10))):
                do_call(t, pkg, s, calls.build(s))
                if n % 20 == 19:
                    d = check("%d more calls" % (n + 1))
                    if d:
                        v = vio("changed", d + ": " + calls.describe(s))
                        break
    st = sim_stats(sim, calls=len(res), faults=faults)
    return result(sim, v, st, nt=len(res) > 1, trace=tr if v else None)


def _pristine(s):
    return calls.values(s)


def plan_spec(plan, k):
    n = 0
    for op in plan["ops"]:
        if op[0] == "call":
            if n == k:
                return bare(op[1])
            n += 1


def shares(x, y):
    if isinstance(x, torch.Tensor) or isinstance(y, torch.Tensor):
        # same storage is enough: views of one storage are not independent,
        # unless the byte ranges actually used are disjoint
        return bool(np.shares_memory(mem(x), mem(y)))
    return bool(np.shares_memory(x, y))


def bare(s):
    return {k: v for k, v in s.items() if k != "reuse"}


def shrink(plan, res):
    ops = plan["ops"]
    for c in ddmin_list(ops):
        if c and c[0][0] == "call":
            yield {"ops": c}
    n = len([o for o in ops if o[0] == "call"])
    idx = [i for i, o in enumerate(ops) if o[0] == "call"]
    if idx:
        for j in range(len(calls.simpler(bare(ops[idx[0]][1])))):
            p = clone(plan)
            for i in idx:
                c = calls.simpler(ops[i][1])
                if j < len(c):
                    p["ops"][i][1] = c[j]
            yield p
    for i in idx:
        for c in calls.simpler(ops[i][1]):
            p = clone(plan)
            p["ops"][i][1] = c
            yield p
