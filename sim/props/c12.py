"""C12: every call terminates."""
from .common import *

ID = "C12"
BUDGET = {"quick": (9000, 75), "thorough": (2_000_000, 2400)}
STALL_IS_VIOLATION = True
RULE = ("one call, up to 12 channels, on contents built to provoke ties, infinities, NaN, zero and "
        "singular systems, optionally corrupted at seeded steps while it runs or under a kernel that "
        "keeps failing; the number of steps (lines and loop jumps executed in the package) must stay "
        "below 20 times what the sizes call for; non-trivial if the contents are pathological; "
        "distinct by event-log digest")
ASSUME = ["a C call into numpy, scipy or torch terminates (watched in real time: 150 s)",
          "the step allowance is 20 x (150 + 15 m^2 + 20 per filter tap + 60 per CG iteration + "
          "per batch entry 60 + 40 m + 6 m^2 + 1.5 m^3 assignment steps) for m channels; the "
          "unchanged tree was never seen to use more than 1/8 of it"]

SHAPES = ["plain", "same", "cyclic", "blocks", "zeros", "levels", "impulses", "rank1", "patho",
          "lattice"]


def generate(rng, tier):
    fn = rng.weighted([("bss_eval_sources", 4), ("sdr", 4), ("sdr_pit_loss", 4), ("sdr_loss", 1),
                       ("pairwise_sdr_loss", 1), ("square_cosine_metrics", 1),
                       ("si_bss_eval_sources", 2), ("si_sdr", 4), ("si_sdr_loss", 1),
                       ("si_sdr_pit_loss", 3)])
    ch = rng.weighted([(1, 1), (2, 3), (3, 3), (4, 3), (5, 2), (6, 2), (8, 2), (10, 1), (12, 1)])
    big = fn in ("bss_eval_sources", "square_cosine_metrics")
    if big:
        ch = min(ch, 6)
    n = rng.randint(max(16, 4 * ch), 120)
    s = calls.gen_call(rng, backend=rng.weighted([("pt", 3), ("np", 2)]), fn=fn, ch=ch, n=n,
                       batch=rng.choice([[], [], [1], [2], [3]]), rect=0.4, layouts=False, ints=False)
    if rng.chance(0.3) and ch > 2 and fn not in ("sdr_loss", "si_sdr_loss"):
        s["data"][rng.choice(["nref", "nest"])] = rng.randint(1, ch)
    if "filter_length" in s["kw"]:
        s["kw"]["filter_length"] = rng.choice([1, 2, 3, 4, 8, 1])
    if rng.chance(0.2) and "use_cg_iter" in s["kw"]:
        s["kw"]["use_cg_iter"] = rng.choice([1, 2, 30, 100])
    s["shape"] = [rng.choice(SHAPES), rng.choice(SHAPES), rng.getrandbits(32)]
    if rng.chance(0.6):
        s["fx"] = [calls.gen_fx(rng, s, calls.FX + ["impulse", "const", "bump"])
                   for _ in range(rng.randint(1, 4))]
    p = {"call": s}
    if rng.chance(0.3):
        p["mid"] = [[rng.randint(1, 20 + 20 * ch), rng.choice(["nan", "inf", "zero", "same", "noise"]),
                     rng.choice(["ref", "est", "both"])] for _ in range(rng.randint(1, 3))]
    if rng.chance(0.15):
        p["fail"] = [rng.choice(common_fault), rng.choice(["linalg", "oom", "kernel", "infeasible",
                                                           "interrupt"])]
    return p


common_fault = ["solve", "linalg_solve", "linear_sum_assignment", "rfft", "irfft", "einsum", "min",
                "norm", "nonzero", "any"]


def shaped(a, kind, g, levels):
    """Rewrite the channels of a (B, C, T) array so that metrics tie."""
    B, C, T = a.shape
    if kind == "same":
        a[:] = a[:, :1]
    elif kind == "cyclic":          # channel c is channel c mod 2
        for c in range(C):
            a[:, c] = a[:, c % 2 if C > 1 else 0]
    elif kind == "blocks":          # disjoint supports
        w = max(1, T // C)
        for c in range(C):
            m = np.zeros(T)
            m[c * w:(c + 1) * w] = 1
            a[:, c] *= m
    elif kind == "zeros":
        for c in range(C):
            if g.uniform() < 0.5:
                a[:, c] = 0
    elif kind == "levels":          # few distinct values: exact ties
        a[:] = np.sign(a) * (levels if levels else 1)
    elif kind == "impulses":
        a[:] = 0
        for b in range(B):
            for c in range(C):
                a[b, c, int(g.integers(0, T))] = 1.0
    elif kind == "rank1":
        for c in range(C):
            a[:, c] = a[:, 0] * (c + 1)
    elif kind == "patho":
        v = [0.0, np.nan, np.inf, -np.inf, 1e-320, 1e308, -0.0, 1.0]
        a[:] = np.array(v)[g.integers(0, len(v), size=a.shape)]
    elif kind == "lattice":         # +-1 codes: correlations on a coarse grid
        t = np.arange(T)
        for c in range(C):
            a[:, c] = np.where((t >> (c % 6)) & 1, 1.0, -1.0)


_cache = {}


def contents(s):
    key = json.dumps([s["data"], s.get("fx"), s["dt"], s["shape"]], sort_keys=True)
    if key in _cache:
        return _cache[key]
    ref, est = calls._signals(s["data"])
    k1, k2, seed = s["shape"]
    g = np.random.Generator(np.random.PCG64(seed))
    with np.errstate(all="ignore"):
        shaped(ref, k1, g, 1)
        if k2 == "cyclic":
            for c in range(est.shape[1]):
                est[:, c] = ref[:, c % ref.shape[1]]
        else:
            shaped(est, k2, g, 0)
        if s.get("fx"):
            calls._apply_fx(ref, est, [dict(e, dt=s["dt"]) for e in s["fx"]])
        sh = tuple(s["data"]["batch"])
        ref = ref.reshape(sh + ref.shape[1:]).astype(s["dt"])
        est = est.reshape(sh + est.shape[1:]).astype(s["dt"])
    if len(_cache) > 32:
        _cache.clear()
    _cache[key] = (ref, est)
    return ref, est


def build(s):
    ref, est = contents(s)
    r, rb = calls.one(ref, "C", s["be"])
    e, eb = calls.one(est, "C", s["be"])
    return calls.Inputs(r, e, [rb, eb], s["be"])


def expected(s):
    d = s["data"]
    nb = int(np.prod(d["batch"])) if d["batch"] else 1
    m = max(d["nref"], d["nest"])
    it = s["kw"].get("use_cg_iter") or 0
    f = 150 + 15 * m * m + 20 * (s["kw"].get("filter_length") or 1) + 60 * it
    if s["fn"] in calls.PIT:
        f += nb * (60 + 40 * m + 6 * m * m + 1.5 * m ** 3)
    return f


def execute(plan):
    s = plan["call"]
    ambient.reset()
    pkg = calls.fresh_pkg()
    fail = plan.get("fail")
    sim = core.Sim(faulty=bool(fail))
    budget = int(20 * expected(s))
    inp = build(s)
    faults = {}
    for e in s.get("fx") or ():
        faults[e["t"]] = faults.get(e["t"], 0) + 1
    for k in s["shape"][:2]:
        faults["content:" + k] = faults.get("content:" + k, 0) + 1
    irqs = {}
    for at, kind, w in plan.get("mid") or ():
        def h(_t, kind=kind, w=w, at=at):
            faults["mid:" + kind] = faults.get("mid:" + kind, 0) + 1
            for x in ([inp.ref] if w == "ref" else [inp.est] if w == "est" else [inp.ref, inp.est]):
                a = calls.as_np(x)
                if kind == "nan":
                    a[..., 0, at % a.shape[-1]] = np.nan
                elif kind == "inf":
                    a[..., -1, at % a.shape[-1]] = np.inf
                elif kind == "zero":
                    a[...] = 0
                elif kind == "same":
                    a[...] = a[..., :1, :].copy()
                else:
                    a[...] = np.random.Generator(np.random.PCG64(at)).standard_normal(a.shape)
        irqs[at] = h
    v = None
    with core.locks_patched(), sim.inline() as t:
        sticky = None
        if fail:
            sticky = (0, fail[0], fail[1])
            t.fired.append([-1, "arm", "arm"])
        o, _ = do_call(t, pkg, s, inp, budget=budget, irqs=irqs, sticky=sticky, armed=bool(fail))
        note_outcome(sim, o)
        used = t.steps
        for _, _, kind in t.fired[1:] if fail else ():
            faults["kernel:" + kind] = faults.get("kernel:" + kind, 0) + 1
        if hang(o):
            v = vio("hang", "%s after %d steps (sizes call for about %d): %s contents %s/%s%s%s" % (
                hang(o), used, expected(s), calls.describe(s), s["shape"][0], s["shape"][1],
                " mid=%s" % plan["mid"] if plan.get("mid") else "",
                " failing=%s" % fail if fail else ""))
    st = sim_stats(sim, calls=1, faults=faults, raised=int(not o.ok),
                   allowance_used_permille=int(1000 * used / budget))
    r = result(sim, v, st, nt=s["shape"][:2] != ["plain", "plain"] or bool(s.get("fx")),
               trace={"steps": used, "budget": budget} if v else None)
    r["ratio"] = used / budget
    return r


def shrink(plan, res):
    if plan.get("fail"):
        yield {k: x for k, x in plan.items() if k != "fail"}
    for c in ddmin_list(plan.get("mid") or []):
        yield dict(plan, mid=c)
    s = plan["call"]
    for i in (0, 1):
        if s["shape"][i] != "plain":
            q = clone(s)
            q["shape"][i] = "plain"
            yield dict(plan, call=q)
    for c in calls.simpler(s):
        yield dict(plan, call=c)
    for m in range(2, max(s["data"]["nref"], s["data"]["nest"])):
        q = clone(s)
        q["data"]["nref"] = min(m, q["data"]["nref"])
        q["data"]["nest"] = min(m, q["data"]["nest"])
        yield dict(plan, call=q)
