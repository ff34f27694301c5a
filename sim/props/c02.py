"""C02: a result depends only on the call's own arguments, not on history."""
import ctypes

from .common import *

ID = "C02"
BUDGET = {"quick": (6000, 100), "thorough": (1_000_000, 2400)}
RULE = ("a sequential history of 2-14 (sometimes 30-60) calls on a few buffers that are refilled "
        "in place, re-viewed, dropped and recycled, with near-identical contents, changed "
        "options and failing calls in between; every call's outcome is compared with the same "
        "call made first in a fresh instance; non-trivial if at least two calls were made; "
        "distinct by event-log digest")

FX_NEAR = ["drop", "swap", "gain", "bump", "bump", "noise"]
_libc = ctypes.CDLL(None)
M_PERTURB = -6


def near(rng, spec):
    """Same shapes and options, slightly or invisibly different samples."""
    s = clone(spec)
    e = calls.gen_fx(rng, s, ["drop", "swap", "gain", "noise", "dup", "bump", "bump"])
    e["g"] = rng.choice([2.0, -1.0, 1.001, 1e-3])
    e["len"] = rng.choice([1, 2, 8])
    s["fx"] = [x for x in s.get("fx", []) if x["t"] not in ("nan", "inf", "ninf")][-2:] + [e]
    return s


def gen_fail(rng, base):
    s = clone(base)
    s.pop("grad", None)
    r = rng.random()
    if r < 0.3:
        s["bad"] = "shape"
    elif r < 0.5:
        s["bad"] = "kw"
    elif r < 0.65:
        s["bad"] = "len"
    elif r < 0.75:
        s["bad"] = "type"
    else:
        s["fx"] = [calls.gen_fx(rng, s, ["nan", "inf", "zero", "ninf"]) for _ in range(2)]
    return s


STEP = {"clamp_db": [0.04, -0.04, 0.4, 0.001, -0.3, 1], "load_diag": [0.3, 0.01, -0.1],
        "filter_length": [1], "use_cg_iter": [1]}


def options(rng, s):
    """The same signals under other options, often differing in one only."""
    s = clone(s)
    d = s["data"]
    k2 = calls.gen_kw(rng, s["fn"], d["n"], max(d["nref"], d["nest"]))
    num = [k for k in sorted(s["kw"]) if k in STEP]
    if num and rng.chance(0.4):         # a nearly equal value of one option
        k = rng.choice(num)
        x = s["kw"][k]
        s["kw"][k] = max(1, x + rng.choice([-1, 1])) if k in ("filter_length", "use_cg_iter") else (
            x * (1 + rng.choice(STEP[k])) if k == "load_diag" else x + rng.choice(STEP[k]))
        return s
    if rng.chance(0.6):
        keys = sorted(set(k2) | set(s["kw"]))
        if keys:
            k = rng.choice(keys)
            kw = dict(s["kw"])
            if k in k2:
                kw[k] = k2[k]
            else:
                kw.pop(k)
            k2 = kw
    s["kw"] = k2
    return s


def other_fn(rng, s):
    q = calls.gen_call(rng, backend=s["be"], n=s["data"]["n"])
    t = clone(s)
    t["fn"], t["via"], t["kw"] = q["fn"], q["via"], q["kw"]
    if t["fn"] in ("sdr_loss", "si_sdr_loss") and t["data"]["nref"] != t["data"]["nest"]:
        m = max(t["data"]["nref"], t["data"]["nest"])
        t["data"]["nref"] = t["data"]["nest"] = m
    return t


def generate(rng, tier):
    epic = rng.chance(0.012)            # longer than any bounded cache
    long = epic or rng.chance(0.06)
    small = long or rng.chance(0.3)
    backend = rng.choice(["np", "pt", "np", "pt", None])
    base_kw = dict(backend=backend, grad=0.12, fx=0.05, big=not small, exotic=0.06)
    if small:
        base_kw["n"] = calls.small_n(rng, 16, 36 if epic else 70)
    if epic:
        base_kw.update(ch=rng.randint(1, 2), batch=[])
    nslots = rng.randint(1, 3)
    slots = [calls.gen_call(rng, **base_kw) for _ in range(nslots)]
    ops = []
    last = [None] * nslots
    nops = rng.randint(140, 320) if epic else rng.randint(30, 60) if long else rng.randint(2, 14)
    p = {k: rng.choice([0, 1, 1, 2, 4]) for k in ("same", "refill", "near", "opt", "fn", "fail",
                                                  "repeat", "dtype", "backend", "shape", "new",
                                                  "swapargs", "flip")}
    p["refill"] += 1
    for _ in range(nops):
        k = rng.randrange(nslots)
        prev = last[k]
        if prev is None:
            s = clone(slots[k])
            s["mode"] = "new"
        else:
            what = rng.weighted(list(p.items()))
            s = {x: y for x, y in clone(prev).items() if x not in ("mode", "bad")}
            s["mode"] = "keep"
            if what == "refill":
                s["data"]["seed"] = rng.getrandbits(32)
                s["mode"] = rng.choice(["refill", "refill", "new", "slide"])
            elif what == "near":
                s = near(rng, s)
                s["mode"] = rng.choice(["refill", "refill", "new"])
            elif what == "opt":
                s = options(rng, s)
            elif what == "fn":
                s = other_fn(rng, s)
                if s["data"] != prev["data"]:
                    s["mode"] = "new"
            elif what == "fail":
                s = gen_fail(rng, s)
                s["mode"] = "keep" if s.get("bad") else "refill"
            elif what == "repeat" and ops:
                s = clone(rng.choice(ops))
                s.pop("bad", None)
                s["mode"] = "new"
            elif what == "dtype":
                s["dt"] = "f4" if s["dt"] == "f8" else "f8"
                s["mode"] = "new"
            elif what == "backend":
                s["be"] = "pt" if s["be"] == "np" else "np"
                s.pop("grad", None)
                if s["dt"] == "i2":
                    s["dt"] = "f8"
                s["lay"] = ["np", "np"] if s["be"] == "pt" else ["C", "C"]
                s["mode"] = "new"
            elif what == "shape":
                d, r = s["data"], rng.random()
                if r < 0.35:
                    d["n"] = max(16, d["n"] + rng.choice([-1, 1, 5, -4]))
                elif r < 0.5:
                    d["n"] = max(16, 1 << (d["n"].bit_length() - rng.choice([0, 1, 1])))
                elif r < 0.75:
                    d["n"] = max(16, int(d["n"] * rng.uniform(0.6, 1.7)))
                elif r < 0.9:
                    d["nref"] = d["nest"] = rng.randint(1, 4)
                else:
                    d["batch"] = rng.choice([[], [1], [2], [3]])
                s.pop("fx", None)
                L = s["kw"].get("filter_length")
                if L:
                    s["kw"]["filter_length"] = max(1, min(
                        L, d["n"] // (3 * max(d["nref"], d["nest"]))))
                s["mode"] = "new"
            elif what == "swapargs":
                s["swap"] = not s.get("swap", False)
            elif what == "flip":
                s["data"]["noise"] = rng.choice([0.03, 3.0])
                s["mode"] = "refill"
            else:
                s["mode"] = "new"
                s["data"]["seed"] = rng.getrandbits(32)
        s["slot"] = k
        if s["be"] == "pt":
            s["raw"] = rng.choice(["np", "np", "data", ""])
        ops.append(s)
        last[k] = {x: y for x, y in s.items() if x not in ("slot",)}
        if s.get("bad"):
            last[k] = prev
    return {"ops": ops, "perturb": rng.choice([0, 0, 0x5A, 0xFF])}


HARNESS = ("mode", "slot", "bad", "raw")


def bare(s):
    return {k: v for k, v in s.items() if k not in HARNESS}


def spoil(spec, inp, bad):
    """A malformed variant of the call (always fails in a sane library)."""
    s = bare(spec)
    s["kw"] = dict(s["kw"])
    i2 = calls.Inputs(inp.ref, inp.est, inp.bases, inp.be)
    if bad == "shape":
        i2.ref = inp.ref[..., :5]
        i2.est = inp.est[..., :-1][..., None, None]
    elif bad == "kw":
        s["kw"]["no_such_option"] = 1
    elif bad == "len":
        s["kw"]["filter_length" if not s["fn"].count("si_") else "clamp_db"] = "x"
    else:
        i2.est = None
    return s, i2


def solo_bad(s):
    saved = loader.detach()
    try:
        pkg = calls.fresh_pkg()
        sp, i2 = spoil(s, calls.build(bare(s)), s["bad"])
        with core.locks_patched():
            o, _ = calls.call(pkg, sp, i2)
    finally:
        loader.attach(saved)
    return o


def refill(inp, spec):
    """"raw": through memory shared with numpy, which no version counter sees."""
    raw = spec.get("raw")
    ref, est = calls.values(spec)
    for x, v in ((inp.ref, ref), (inp.est, est)):
        if isinstance(x, torch.Tensor):
            with torch.no_grad():
                y = x.detach()
                if raw == "np":
                    y.numpy()[...] = v
                elif raw == "data":
                    x.data.copy_(torch.from_numpy(v.copy()))
                else:
                    x.copy_(torch.from_numpy(v.copy()))
            x.grad = None
        else:
            x[...] = v


def compatible(inp, spec):
    ref, est = calls.values(spec)
    r, e = calls.as_np(inp.ref), calls.as_np(inp.est)
    if r.shape != ref.shape or e.shape != est.shape or r.dtype != ref.dtype:
        return False
    if inp.be != spec["be"]:
        return False
    if inp.be == "np" and not (r.flags.writeable and e.flags.writeable):
        return False
    if inp.be == "pt" and bool(spec.get("grad")) != bool(inp.est.requires_grad):
        return False
    return True


def execute(plan):
    want = []
    for s in plan["ops"]:
        if s.get("bad"):
            want.append(solo_bad(s))
        else:
            want.append(calls.solo(bare(s)))
    ambient.reset()
    if plan.get("perturb"):
        _libc.mallopt(M_PERTURB, plan["perturb"])
    try:
        return _history(plan, want)
    finally:
        if plan.get("perturb"):
            _libc.mallopt(M_PERTURB, 0)


def _history(plan, want):
    pkg = calls.fresh_pkg()
    sim = core.Sim()
    slots = {}
    big = {}
    hist = {}
    v = None
    trace = []
    with core.locks_patched(), sim.inline() as t:
        for i, s in enumerate(plan["ops"]):
            k, b = s["slot"], bare(s)
            mode = s["mode"]
            inp = slots.get(k)
            if mode in ("keep", "refill") and (inp is None or not compatible(inp, b)):
                mode = "new"
            if mode == "slide" and (b["be"] != "np" or b["dt"] == "i2" and False):
                mode = "refill" if inp is not None and compatible(inp, b) else "new"
            if mode == "new":
                slots[k] = inp = None        # recycled memory, recycled ids
                inp = slots[k] = calls.build(b)
            elif mode == "slide":
                inp = slots[k] = _slide(big, k, b, i)
                refill(inp, s)
            elif mode == "keep":
                # contents may differ from what this op wants (after a failed call)
                refill(inp, s)
            else:
                refill(inp, s)
            if b.get("grad"):
                for x in (inp.ref, inp.est):
                    x.grad = None
            hist[mode] = hist.get(mode, 0) + 1
            if s.get("bad"):
                sp, i2 = spoil(s, inp, s["bad"])
            else:
                sp, i2 = b, inp
            o, _ = do_call(t, pkg, sp, i2)
            note_outcome(sim, o)
            trace.append([i, mode, calls.describe(b), s.get("bad"), o.brief()[:80]])
            if s.get("bad"):
                d = calls.diff(o, want[i], b)
                if d and calls.degenerate(b):
                    d = None
            else:
                d = calls.confirmed_diff(o, want[i], b)
            if hang(o):
                d = hang(o)
            if d:
                v = vio("result", "call %d of the history (%s): %s; %s" % (
                    i, mode, calls.describe(b), d))
                break
    st = sim_stats(sim, calls=len(plan["ops"]), history_ops=hist,
                   faults={"failed_call": sum(1 for w in want if not w.ok),
                           "buffer_overwritten": hist.get("refill", 0) + hist.get("slide", 0),
                           "memory_recycled": hist.get("new", 0),
                           "heap_filled_with_pattern": int(bool(plan.get("perturb")))})
    return result(sim, v, st, nt=len(plan["ops"]) > 1, trace=trace if v else None)


def _slide(big, k, b, i):
    """Another window into one long recording buffer."""
    ref, est = calls.values(b)
    out = []
    for j, a in enumerate((ref, est)):
        key = (k, j, a.shape[:-1], a.dtype.str)
        buf = big.get(key)
        if buf is None or buf.shape[-1] < a.shape[-1] + 16:
            buf = big[key] = np.zeros(a.shape[:-1] + (a.shape[-1] + 16,), a.dtype)
        o = 0 if i % 2 else (i * 3) % 16
        out.append(buf[..., o:o + a.shape[-1]])
    return calls.Inputs(out[0], out[1], [], "np")


def shrink(plan, res):
    ops = plan["ops"]
    for cand in ddmin_list(ops):
        if cand:
            yield {"ops": cand, "perturb": plan.get("perturb")}
    if plan.get("perturb"):
        yield {"ops": ops, "perturb": 0}
    # simplify all calls alike
    for j in range(len(calls.simpler(ops[-1]))):
        p = clone(plan)
        try:
            for i in range(len(ops)):
                c = calls.simpler(ops[i])
                p["ops"][i] = c[j] if j < len(c) else ops[i]
        except Exception:
            continue
        yield p
    for i in range(len(ops)):
        for c in calls.simpler(ops[i]):
            p = clone(plan)
            p["ops"][i] = c
            yield p
