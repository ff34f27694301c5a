"""C09: nothing derived from the signals is retained."""
import _thread
import gc
import os
import tracemalloc
import warnings
import weakref

from .common import *
from .. import boot

ID = "C09"
BUDGET = {"quick": (2000, 110), "thorough": (500_000, 2400)}
CHUNK = 10
RULE = ("a history of 10-20 calls (now and then 240-320, each with other options) with fresh signals of one shape (or growing shapes), some failing "
        "naturally or by an injected fault; afterwards every input, result and tensor must be "
        "gone and traced memory must not have grown; non-trivial if memory was compared after at "
        "least 10 calls; distinct by event-log digest")


EXTEND = 240
VERIFDIR = boot.VERIF + os.sep
PKGDIR = os.path.join(boot.REPO, loader.PKG) + os.sep


def generate(rng, tier):
    mode = rng.weighted([("steady", 120), ("large", 55), ("options", 7), ("long", 2)])
    if mode in ("options", "long"):
        p = (gen_options if mode == "options" else gen_long)(rng)
    else:
        p = gen_short(rng, mode)
    if p["mode"] == "steady" and rng.chance(0.25):
        p["threads"] = 1        # every call in a new thread, which lives on until the last call
    if rng.chance(0.4):
        p["warn"] = 1           # warnings are reported (to a sink), not ignored
    return p


def gen_long(rng):
    """Many small calls with the same options: a few bytes per call add up."""
    fn = rng.choice(["sdr", "sdr_loss", "bss_eval_sources", "si_sdr", "si_bss_eval_sources",
                     "si_sdr_loss", "sdr_pit_loss"])
    s = calls.gen_call(rng, backend=rng.choice(["np", "pt"]), layouts=False, batch=[],
                       ch=rng.randint(1, 2), n=rng.randint(24, 60), ints=False, big=False, rare=0,
                       fn=fn, fx=0.15, special=False)
    if "filter_length" in s["kw"]:
        s["kw"]["filter_length"] = rng.choice([1, 2, 3])
    if rng.chance(0.5):
        s["data"]["noise"] = 0.001
        s["kw"]["clamp_db"] = rng.choice([10, 20, 30])
    return {"mode": "options", "call": s, "warm": 2,
            "ops": [{"seed": rng.getrandbits(32)} for _ in range(1200)]}


def gen_short(rng, mode):
    s = calls.gen_call(rng, backend=rng.choice(["np", "pt"]), grad=0.15, layouts=rng.chance(0.2),
                       batch=rng.choice([[], [], [2]]), ch=rng.choice([1, 2, 2, 3]), ints=False,
                       big=False)
    if mode == "large":
        s["data"]["n"] = rng.choice([30000, 60000])
        s["data"]["batch"] = []
        s["data"]["nref"] = s["data"]["nest"] = min(2, s["data"]["nref"])
        s.pop("lay", None)
    ops = []
    warm = 4
    k = rng.randint(10, 20) if mode == "steady" else rng.randint(1, 3)
    failp = rng.choice([0, 0, 0.2, 0.6])
    vary_opts = rng.chance(0.3)
    for i in range(k):
        o = {"seed": rng.getrandbits(32)}
        if rng.chance(failp):
            if rng.chance(0.5):
                o["faults"] = [gen_fault(rng)]
            else:
                o["fx"] = [calls.gen_fx(rng, s, ["nan", "inf", "zero"]) for _ in range(2)]
        if rng.chance(0.3):
            o["hold"] = rng.randint(1, 4)
        if vary_opts:
            o["clamp"] = rng.choice([None, 30, 10])
            o["zm"] = rng.chance(0.5)
        if mode == "steady" and rng.chance(0.15):
            o["dn"] = rng.randint(1, 9)
        if rng.chance(0.3):
            o["churn"] = True
        ops.append(o)
    return {"mode": mode, "call": s, "ops": ops, "warm": warm}


def gen_options(rng):
    """A long history in which every call uses another filter length, number of
    samples, clamp or loading: what is kept per option set must be bounded."""
    s = calls.gen_call(rng, backend=rng.choice(["np", "pt"]), layouts=False, batch=[], ch=1, n=700,
                       ints=False, big=False, rare=0, fn=rng.choice(
                           ["sdr", "sdr_loss", "bss_eval_sources"]))
    s["kw"] = {"filter_length": 2}
    if rng.chance(0.8):
        s["kw"]["use_cg_iter"] = 1
    ops = []
    what = rng.choice(["fl", "fl", "n", "clamp_db", "load_diag", "fx", "fx", "fault"])
    k = 320
    if what in ("fx", "fault"):
        s["kw"]["filter_length"] = rng.choice([1, 2, 5])
        s["data"].update(n=rng.randint(24, 60), nref=2, nest=2, batch=rng.choice([[], [2]]))
    for i in range(k):
        o = {"seed": rng.getrandbits(32)}
        if what == "fl":
            # evenly spread over the sizes at any time, so that what is kept for a
            # bounded number of option sets stays about as large
            o["fl"] = 3 + 2 * (i * 197 % k)
        elif what == "n":
            o["dn"] = 2 * (i * 197 % k) - 300
        elif what == "fx":
            o["fx"] = [calls.gen_fx(rng, s, ["nan", "inf", "zero", "ident"]) for _ in range(2)]
        elif what == "fault":
            o["faults"] = [gen_fault(rng)]
        else:
            o["opt"] = [what, rng.uniform(10, 40) if what == "clamp_db" else rng.uniform(1e-9, 1e-3)]
        ops.append(o)
    if what == "fl" and "use_cg_iter" not in s["kw"]:
        for i, o in enumerate(ops):
            o["fl"] = 2 + i % 97
    return {"mode": "options", "call": s, "ops": ops, "warm": 2, "extend": 1}


def fresh_options(o):
    """Options not used so far, for the extension of a history."""
    o = dict(o, seed=(o["seed"] + 7919) & 0xffffffff)
    if "fl" in o:
        o["fl"] += 1
    if "dn" in o:
        o["dn"] += 1
    if "opt" in o:
        o["opt"] = [o["opt"][0], o["opt"][1] * 1.0009765625]
    return o


def spec_of(plan, o):
    s = clone(plan["call"])
    s["data"]["seed"] = o["seed"]
    if o.get("fx"):
        s["fx"] = o["fx"]
    if "clamp" in o and not s["fn"] == "square_cosine_metrics":
        s["kw"].pop("clamp_db", None)
        if o["clamp"]:
            s["kw"]["clamp_db"] = o["clamp"]
    if o.get("zm"):
        s["kw"]["zero_mean"] = True
    if "dn" in o:
        s["data"]["n"] += o["dn"]
    if "fl" in o:
        s["kw"]["filter_length"] = o["fl"]
    if "opt" in o:
        s["kw"][o["opt"][0]] = o["opt"][1]
    return s


def live_tensors():
    n, tot, seen = 0, 0, set()
    for x in gc.get_objects():
        if type(x) is torch.Tensor:
            n += 1
            p = x.untyped_storage()
            if p.data_ptr() not in seen:
                seen.add(p.data_ptr())
                tot += p.nbytes()
    return n, tot


def execute(plan):
    names = {}
    for i, o in enumerate(plan["ops"]):
        if o.get("faults"):
            names[i] = dry_names(spec_of(plan, o))
    ambient.reset()
    if plan.get("warn"):
        warnings.showwarning = lambda *a, **k: None
        warnings.simplefilter("default")
    calls._data_cache.clear()
    calls._solo_cache.clear()
    pkg = calls.fresh_pkg()
    sim = core.Sim(faulty=bool(names))
    v = None
    fails = 0
    base = plan["call"]
    nbytes = sum(a.nbytes for a in calls.values(base))
    calls._data_cache.clear()
    refs = []
    tracked = 0
    held = []

    def one(t, s, fp, track, hold=0, i=None):
        inp = calls.build(s)
        calls._data_cache.clear()
        o, res = do_call(t, pkg, s, inp, plan=fp, armed=bool(fp))
        if track:
            refs.append((weakref.ref(inp.ref), "reference", i))
            refs.append((weakref.ref(inp.est), "estimate", i))
            if res is not None:
                for k, x in enumerate(calls.leaves(res)):
                    if isinstance(x, (np.ndarray, torch.Tensor)):
                        refs.append((weakref.ref(x), "result %d" % k, i))
        if hold:
            held.append([hold, inp, res])
        for h in held:
            h[0] -= 1
        held[:] = [h for h in held if h[0] > 0]
        ok, err = o.ok, o.err
        note_outcome(sim, o)
        del inp, res, o
        return ok

    parked = []
    alive0 = _thread._count()

    def one_in_thread(*a):
        """The same in a new thread, which goes on living."""
        done, park = _thread.allocate_lock(), _thread.allocate_lock()
        done.acquire()
        park.acquire()
        parked.append(park)
        out = []

        def body():
            sim.by_ident[_thread.get_ident()] = a[0]
            try:
                out.append(one(*a))
            finally:
                sim.by_ident.pop(_thread.get_ident())
                done.release()
            park.acquire()
        _thread.start_new_thread(body, ())
        done.acquire()
        return bool(out and out[0])

    def unpark():
        for p in parked:
            p.release()
        while parked and _thread._count() > alive0:
            core._REAL_TIME["sleep"](0.0005)
        parked.clear()

    def measure():
        gc.collect()
        a = 0
        for tr in tracemalloc.take_snapshot().traces:
            if tr.size % 2 and tr.size < 200:
                # some calls in torch and numpy (torch.Size + tuple, broadcast_to)
                # leave traces of 49, 59, 67 bytes behind in tracemalloc although the
                # memory is reused (the resident set does not grow)
                continue
            # innermost first: the package, or something it called, but not the
            # simulator's own callbacks
            for f in reversed(tr.traceback._frames):
                if f[0].startswith(VERIFDIR):
                    break
                if PKGDIR in f[0]:
                    a += tr.size
                    break
        return a, live_tensors()

    stat = {}
    calls.SCRUB = False
    with core.locks_patched(), sim.inline() as t:
        # warm-up: constants, lazily imported modules, first-use initialisation;
        # in "large" mode with the same options on short signals
        wn = dict(clone(base))
        if plan["mode"] == "large":
            wn["data"]["n"] = max(700, 6 * (base["kw"].get("filter_length", 512)))
        for k in range(plan["warm"]):
            w = clone(wn)
            w["data"]["seed"] = 1000 + k
            one(t, w, {}, False)
        if plan["mode"] == "steady":
            # every option set used later once, so that per-option constants exist
            for o in plan["ops"]:
                if not o.get("faults"):
                    w = spec_of(plan, o)
                    w["data"]["seed"] = 77
                    one(t, w, {}, False)
        elif plan["mode"] == "large":
            for o in plan["ops"]:
                w = spec_of(plan, dict(o, fx=None))
                w["data"]["n"] = wn["data"]["n"]
                one(t, w, {}, False)
        junk = None
        tracemalloc.start(10)
        try:
            one(t, wn, {}, False)
            m0, (n0, t0) = measure()
            count = len(plan["ops"])
            for i, o in enumerate(plan["ops"]):
                if o.get("churn"):
                    junk = [np.empty(j) for j in range(1, 40)]
                s = spec_of(plan, o)
                fp = fault_plan(names.get(i), o["faults"]) if o.get("faults") else {}
                f = one_in_thread if plan.get("threads") and not fp else one
                fails += not f(t, s, fp, True, o.get("hold", 0), i)
                if v:
                    break
                if plan["mode"] == "options" and 2 * (i + 1) == len(plan["ops"]):
                    # whatever is kept for a bounded number of option sets is full by now
                    count -= i + 1
                    m0, (n0, t0) = measure()
            held.clear()
            unpark()
            tracked = len(refs)
            del junk
            dead_now = [r for r in refs if r[0]() is not None]
            m1, (n1, t1) = measure()
            dead = [(w, i) for r, w, i in refs if r() is not None]
            stat["needed_gc"] = len(dead_now) - len(dead)
            # objects the package allocated and still holds
            if dead:
                w, i = dead[0]
                s = spec_of(plan, plan["ops"][i])
                v = vio("retained", "%d objects survive after the caller dropped them, first the %s of %s"
                        % (len(dead), w, calls.describe(s)))
            elif n1 > n0:
                v = vio("retained", "%d more tensors (%d bytes) are alive after %d calls: %s" % (
                    n1 - n0, t1 - t0, len(plan["ops"]), calls.describe(base)))
            else:
                grow = m1 - m0
                lim = 0.2 * nbytes if plan["mode"] == "large" else \
                    1500 if plan["mode"] == "steady" else max(6000, min(count, 160) * 40)
                stat["grow"] = 0
                if plan["mode"] == "steady" and grow > lim and t1 - t0 <= lim:
                    # a little: numpy's and the interpreter's pools of small blocks,
                    # unless it goes on
                    for j in range(EXTEND // count + 1):
                        for i, o in enumerate(plan["ops"]):
                            s = spec_of(plan, dict(o, seed=(o["seed"] + 7919 * j) & 0xffffffff))
                            fp = fault_plan(names[i], o["faults"]) if i in names else {}
                            f = one_in_thread if plan.get("threads") and not fp else one
                            f(t, s, fp, False)
                    unpark()
                    m2, (_, t1) = measure()
                    lim, grow = 6000, m2 - m1
                    stat["extended"] = 1
                if plan.get("extend") and max(grow, t1 - t0) > lim:
                    # a cache that is bounded is full by the end of this
                    for i, o in enumerate(plan["ops"]):
                        s = spec_of(plan, fresh_options(o))
                        fp = fault_plan(names[i], o["faults"]) if i in names else {}
                        one(t, s, fp, False)
                    t0 = t1
                    m2, (_, t1) = measure()
                    grow = m2 - m1
                    stat["extended"] = 1
                if grow > lim or t1 - t0 > lim:
                    v = vio("growth", "memory grew by %d bytes over %d calls (%d bytes of signal each): %s"
                            % (max(grow, t1 - t0), len(plan["ops"]), nbytes, calls.describe(base)))
        finally:
            unpark()
            tracemalloc.stop()
            refs.clear()
            calls.SCRUB = True
    calls._data_cache.clear()
    sim.note(v is not None)
    st = sim_stats(sim, calls=len(plan["ops"]), failed_calls=fails, objects_tracked=tracked,
                   threads_ended=len(plan["ops"]) if plan.get("threads") else 0,
                   freed_only_by_gc=stat.get("needed_gc", 0), extended=stat.get("extended", 0),
                   faults=dict(fault_names(sim), natural_failure=fails))
    return result(sim, v, st, nt=len(plan["ops"]) >= 10 or plan["mode"] == "large",
                  trace={"grow": True} if v else None)


def shrink(plan, res):
    if plan["mode"] == "options":
        return
    if plan["mode"] == "large" and len(plan["ops"]) > 1:
        for o in plan["ops"]:
            yield dict(plan, ops=[o])
    if plan.get("threads"):
        yield dict(plan, threads=0)
    for k in ("faults", "fx", "hold", "dn", "churn", "clamp", "zm"):
        if any(k in o for o in plan["ops"]):
            p = clone(plan)
            for o in p["ops"]:
                o.pop(k, None)
            yield p
    for c in calls.simpler(plan["call"]):
        if plan["mode"] == "large" and c["data"]["n"] < 20000:
            continue
        yield dict(plan, call=c)
