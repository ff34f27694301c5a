"""Shared by the property modules."""
import copy
import gc
import json
import zlib

import numpy as np
import torch

from .. import ambient, calls, core, loader
from ..rng import stream

BIG_BUDGET = 3_000_000


def clone(x):
    return json.loads(json.dumps(x))


def result(sim_or_crc, violation=None, stats=None, nt=True, sig=None, trace=None, sched=None,
           sample=None):
    crc = sim_or_crc.crc if isinstance(sim_or_crc, core.Sim) else int(sim_or_crc)
    r = {"v": violation, "digest": crc, "stats": stats or {}, "nt": nt}
    if sig is not None:
        r["sig"] = sig
    if trace is not None:
        r["trace"] = trace
    if sched is not None:
        r["sched"] = sched
    return r


def vio(key, msg):
    return {"key": key, "msg": msg}


def sim_stats(sim, **more):
    st = {"steps": sim.step, "sim_s": sim.clock.now - sim.clock.start,
          "thread_switches": sim.switches}
    st.update(more)
    return st


def do_call(t, pkg, spec, inp, budget=BIG_BUDGET, plan=None, sticky=None, armed=False,
            irqs=None, names=None):
    """Run one call as task `t`; (outcome, live result)."""
    t.steps = t.opsteps = t.points = 0
    t.budget = budget
    t.over = False
    t.backend = spec["be"]
    t.plan = plan or {}
    t.sticky = sticky
    t.irqs = irqs or {}
    t.names = names
    t.armed = armed
    try:
        o, res = calls.call(pkg, spec, inp)
    except core.SimDeadlock as e:
        o, res = calls.failure(e), None
    except core.SimBudget as e:
        o, res = calls.failure(e), None
    finally:
        t.armed = False
        t.irqs = {}
        t.plan = {}
        t.sticky = None
        t.budget = 1 << 60
    if t.over and o.err != "SimBudget":
        o = calls.failure(core.SimBudget("step budget exhausted"))
        res = None
    return o, res


def hang(o):
    if o.err == "SimBudget":
        return "did not finish within its step budget"
    if o.err == "SimDeadlock":
        return "is blocked for ever on a lock"
    return None


def note_outcome(sim, o):
    sim.note(o.ok, o.err, [(a.tobytes().hex()[:64], k) for a, k in o.leaves])


def fault_names(sim):
    out = {}
    for t in sim.tasks:
        for _, _, kind in t.fired:
            out[kind] = out.get(kind, 0) + 1
    return out


def crc_of(*parts):
    return zlib.crc32(repr(parts).encode())


def ddmin_list(xs):
    """Candidate sub-lists of xs, largest removals first."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield xs[:a] + xs[a + size:]
        size //= 2


def pick_kind(name, r):
    ks = core.kinds_for(name)
    x = r * sum(w for _, w in ks)
    for k, w in ks:
        x -= w
        if x < 0:
            return k
    return ks[-1][0]


def dry_names(spec, build=calls.build, settle=True):
    """Names of the fault points of a call, from a run in a throw-away instance."""
    key = json.dumps(spec, sort_keys=True)
    got = _dry.get(key)
    if got is not None:
        return got
    saved = loader.detach()
    try:
        pkg = calls.fresh_pkg()
        sim = core.Sim(faulty=True)
        names = []
        with core.locks_patched(), sim.inline() as t:
            if spec["via"] == "warm":
                pass
            do_call(t, pkg, spec, build(spec), armed=True, names=names)
    finally:
        loader.attach(saved)
    if len(_dry) > 256:
        _dry.clear()
    _dry[key] = names
    return names


_dry = {}


def fault_plan(names, faults):
    """{index: kind} from [[fraction, r], ...] (or ["name", fraction, r])."""
    fp = {}
    if not names:
        return fp
    kinds = None
    for f in faults:
        if f[0] == "~":             # every distinct fault point is as likely
            kinds = kinds or sorted({n for n in names if not n.startswith("enter:")})
            if not kinds:
                continue
            f = [kinds[int(f[1] * len(kinds)) % len(kinds)], f[2], f[3]]
        if len(f) == 3:
            idx = [i for i, n in enumerate(names) if n == f[0]]
            if not idx:
                continue
            i = idx[int(f[1] * len(idx)) % len(idx)]
            fp[i] = pick_kind(names[i], f[2])
        else:
            i = int(f[0] * len(names)) % len(names)
            if f[1] >= 0.25:            # function entries can only be interrupted
                for _ in range(len(names)):
                    if not names[i].startswith("enter:"):
                        break
                    i = (i + 1) % len(names)
            fp[i] = pick_kind(names[i], f[1])
    return fp


FAULT_HEAVY = ["inplace", "store", "solve", "linear_sum_assignment", "rfft", "irfft", "einsum", "norm", "min", "max",
               "empty", "zeros", "stack", "log10", "clamp", "clip", "linalg_solve", "isinf",
               "as_strided", "reshape", "cat", "concatenate", "mean", "item", "numpy", "cpu"]


def gen_fault(rng):
    if rng.chance(0.4):
        return ["~", rng.random(), rng.random(), rng.random()]
    if rng.chance(0.3):
        return [rng.choice(FAULT_HEAVY), rng.random(), rng.random()]
    return [rng.random(), rng.random()]
