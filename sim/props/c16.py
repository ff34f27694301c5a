"""C16: forked worker processes compute what a fresh process computes."""
import os
import pickle
import random
import select
import signal

from .. import boot
from .common import *
from .c01 import gen_sched, vary, concretise, shrink_schedule     # noqa: F401

ID = "C16"
BUDGET = {"quick": (4000, 90), "thorough": (1_000_000, 2400)}
STALL_IS_VIOLATION = True
CHILD_S = 20.0
RULE = ("1-3 simulated threads make 1-3 calls each, some failing on their own or by an injected "
        "kernel failure; at seeded places - between two calls of one thread while the others are "
        "parked at an arbitrary step of theirs, or inside a call, as from a signal handler - the "
        "process really forks; the child (in which only the forking thread exists; in half of the forks it takes on the identity that "
        "multiprocessing, a process pool or a DataLoader gives its workers) unpickles the "
        "functions and makes 1-3 calls, may fork again, and its outcomes are compared with the "
        "same calls made alone; the parent's calls are compared too; non-trivial if a fork happened "
        "after at least one call had begun; distinct by event-log digest")


def gen_child(rng, base, similar, depth=0):
    c = {"calls": []}
    for _ in range(rng.weighted([(1, 5), (2, 3), (3, 1)])):
        q = vary(rng, base) if similar else calls.gen_call(rng, big=False, grad=0.15, rare=0.01)
        c["calls"].append(q)
    if rng.chance(0.3):
        c["calls"][0] = clone(base)             # what the parent is doing right now
    if depth == 0 and rng.chance(0.12):
        c["fork"] = gen_child(rng, base, similar, 1)
    if rng.chance(0.3):
        c["pickle"] = 1
    if rng.chance(0.5):
        # what the standard worker pools make of a forked process
        c["as"] = rng.choice(["process", "daemon", "pool", "loader"])
    return c


def generate(rng, tier):
    nthr = rng.weighted([(1, 25), (2, 50), (3, 25)])
    fine = rng.chance(0.15)
    similar = rng.chance(0.75)
    backend = rng.choice(["np", "pt", None])
    kw = dict(backend=backend, big=rng.chance(0.1), grad=0.15, fx=0.03, rare=0.01, exotic=0.04)
    base = calls.gen_call(rng, **kw)
    ths = []
    for _ in range(nthr):
        ops = []
        for _ in range(rng.weighted([(1, 4), (2, 4), (3, 2)])):
            s = vary(rng, base) if similar else calls.gen_call(rng, **kw)
            if rng.chance(0.12):
                s["faults"] = [gen_fault(rng)]
            ops.append(s)
        ths.append(ops)
    forks = []
    for _ in range(rng.weighted([(1, 6), (2, 3)])):
        th = rng.randrange(nthr)
        f = {"th": th, "op": rng.randrange(len(ths[th]) + 1),
             "child": gen_child(rng, base, similar)}
        if rng.chance(0.35) and f["op"] < len(ths[th]):
            f["at"] = rng.choice([rng.randint(1, 40), rng.randint(1, 200)])
            for q in child_specs(f["child"]):
                q.pop("grad", None)     # the call around it may have gradients switched off
        forks.append(f)
    return {"threads": ths, "forks": forks, "sched": gen_sched(rng, fine), "fine": fine}


def bare(s):
    return {k: v for k, v in s.items() if k != "faults"}


def child_specs(c):
    out = list(c["calls"])
    if "fork" in c:
        out += child_specs(c["fork"])
    return out


def become(kind):
    """The identity multiprocessing and the torch DataLoader give their workers."""
    import multiprocessing.process as mp
    import multiprocessing.util as mu
    p = mp.BaseProcess(name="ForkPoolWorker-3" if kind in ("pool", "loader") else None,
                       daemon=kind != "process")
    par = mp._ParentProcess("MainProcess", os.getppid(), None)
    mp._children = set()
    mp._parent_process = par
    mp._current_process = p
    mu._finalizer_registry.clear()
    mu._run_after_forkers()
    if kind == "loader":
        import torch.utils.data._utils.worker as tw
        torch.set_num_threads(1)
        random.seed(7)
        torch.manual_seed(7)
        np.random.seed(7)
        tw._worker_info = tw.WorkerInfo(id=1, num_workers=4, seed=7, dataset=None)


def in_child(sim, t, pkg, c):
    """Everything the child does; returns [key, message] or None."""
    sim.threaded = False
    sim.policy = None
    sim.aborting = False
    me = core._get_ident()
    sim.by_ident = {me: t}
    for x in sim.tasks:
        if x is not t:
            x.state = "gone"
    t.irqs = {}
    t.in_irq = 0
    sim.grace = 0
    if "as" in c:
        become(c["as"])
    for q in c["calls"]:
        q = bare(q)
        if c.get("pickle"):
            f = calls.resolve(pkg, q)
            try:
                g = pickle.loads(pickle.dumps(f))
            except Exception as e:
                return ["pickle", "%s cannot be sent to a worker: %r" % (q["fn"], e)]
            if g is not f:
                return ["pickle", "%s does not survive pickling" % q["fn"]]
        o, _ = do_call(t, pkg, q, calls.build(q))
        if hang(o):
            return ["hang", "in the forked process a call %s: %s" % (hang(o), calls.describe(q))]
        d = calls.confirmed_diff(o, calls.solo(q), q)
        if d:
            return ["child", "in the forked process: %s; %s" % (calls.describe(q), d)]
    if "fork" in c:
        r = fork(sim, t, pkg, c["fork"])
        if r:
            return r
    return None


def fork(sim, t, pkg, c):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            boot.die_with_parent()
            os.close(r)
            try:
                m = in_child(sim, t, pkg, c)
            except core.SimAbort as e:
                m = ["hang", "in the forked process: %s" % e]
            except BaseException as e:
                import traceback
                m = ["harness", traceback.format_exc()]
            os.write(w, json.dumps(m).encode()[:60000])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = core.REAL_MONOTONIC() + CHILD_S * (1 + (1 if "fork" in c else 0))
    try:
        while True:
            left = end - core.REAL_MONOTONIC()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                return ["slow-child", "the forked process made no progress for %d s of real time"
                        % CHILD_S]
            if select.select([r], [], [], left)[0]:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                buf += b
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ["child", "the forked process was killed by signal %d" % os.WTERMSIG(st)]
    if not buf:
        return ["harness", "the forked process wrote nothing"]
    return json.loads(buf)


def execute(plan):
    ths = plan["threads"]
    want, names = {}, {}
    for a, ops in enumerate(ths):
        for b, s in enumerate(ops):
            if s.get("faults"):
                names[a, b] = dry_names(bare(s))
            else:
                want[a, b] = calls.solo(s)
    for f in plan["forks"]:
        for q in child_specs(f["child"]):
            calls.solo(bare(q))
    ambient.reset()
    pkg = calls.fresh_pkg()
    inputs = {(a, b): calls.build(bare(s)) for a, ops in enumerate(ths) for b, s in enumerate(ops)}
    sim = core.Sim(policy=core.make_policy(plan["sched"], len(ths)), fine=plan["fine"],
                   faulty=bool(names))
    got = {}
    bad = []
    stat = {"forks": 0, "forks_mid_call": 0, "forks_while_others_mid_call": 0, "begun": 0}
    live = [0]

    def do_fork(t, f):
        stat["forks"] += 1
        stat["forks_mid_call"] += int("at" in f)
        stat["forks_while_others_mid_call"] += int(live[0] - int("at" in f) > 0)
        stat["after_begin"] = stat.get("after_begin", 0) + int(stat["begun"] > 0)
        ambient_before = [(x.state, x.blocked_on) for x in sim.tasks]
        r = fork(sim, t, pkg, f["child"])
        assert ambient_before == [(x.state, x.blocked_on) for x in sim.tasks]
        sim.note("fork", t.tid, r and r[0])
        if r:
            bad.append(r)

    def body(a):
        def run(t):
            for b in range(len(ths[a]) + 1):
                sim.boundary(t)
                irqs = {}
                for f in plan["forks"]:
                    if f["th"] == a and f["op"] == b:
                        if "at" in f and b < len(ths[a]):
                            irqs[f["at"]] = lambda _t, f=f: do_fork(_t, f)
                        else:
                            do_fork(t, f)
                if b == len(ths[a]) or bad:
                    continue
                s = ths[a][b]
                fp = fault_plan(names.get((a, b)), s.get("faults") or [])
                stat["begun"] += 1
                live[0] += 1
                o, _ = do_call(t, pkg, bare(s), inputs[a, b], irqs=irqs, plan=fp, armed=bool(fp))
                live[0] -= 1
                sim.note(a, b)
                note_outcome(sim, o)
                got[a, b] = o
        return run
    for a in range(len(ths)):
        sim.spawn(body(a))
    with core.locks_patched():
        sim.run_threads()
    v = None
    if sim.stalled:
        v = vio("stall", "the run stopped making progress in real time")
    if bad and v is None:
        if bad[0][0] == "harness":
            raise RuntimeError(bad[0][1])
        v = vio(*bad[0])
    for k, w in sorted(want.items()):
        if v:
            break
        s = ths[k[0]][k[1]]
        if k not in got:
            v = vio("lost", "call %s never completed: %s" % (k, calls.describe(s)))
        elif hang(got[k]):
            v = vio("hang", "call %s of the parent %s: %s" % (k, hang(got[k]), calls.describe(s)))
        else:
            d = calls.confirmed_diff(got[k], w, s)
            if d:
                v = vio("parent", "call %s of the forking process differs: %s; %s" % (
                    k, calls.describe(s), d))
    st = sim_stats(sim, calls=len(got), **{k: x for k, x in stat.items()})
    st["faults"] = dict(fault_names(sim), preemption=sim.switches, fork=stat["forks"])
    return result(sim, v, st, nt=stat.get("after_begin", 0) > 0, sched=sim.decisions,
                  trace={"decisions": sim.decisions[:400]} if v else None)


def shrink(plan, res):
    fs = plan["forks"]
    if len(fs) > 1:
        for f in fs:
            yield dict(clone(plan), forks=[f])
    for i, f in enumerate(fs):
        c = f["child"]
        for k in ("fork", "pickle", "as"):
            if k in c:
                p = clone(plan)
                del p["forks"][i]["child"][k]
                yield p
        if len(c["calls"]) > 1:
            for x in c["calls"]:
                p = clone(plan)
                p["forks"][i]["child"]["calls"] = [x]
                yield p
    ths = plan["threads"]

    def seeds(p):
        yield p
        if p["sched"]["mode"] != "explicit" and len(p["threads"]) > 1:
            for k in range(3):
                q = clone(p)
                q["sched"]["seed"] = crc_of(p["sched"]["seed"], k)
                yield q
    if len(ths) > 1:
        for a in range(len(ths)):
            if any(f["th"] == a for f in fs):
                continue
            p = clone(plan)
            del p["threads"][a]
            for f in p["forks"]:
                f["th"] -= int(f["th"] > a)
            yield from seeds(p)
    for a in range(len(ths)):
        for b in range(len(ths[a])):
            if any(f["th"] == a and f["op"] == b and "at" in f for f in fs):
                pass
            else:
                p = clone(plan)
                del p["threads"][a][b]
                for f in p["forks"]:
                    if f["th"] == a and f["op"] > b:
                        f["op"] -= 1
                yield from seeds(p)
            if ths[a][b].get("faults"):
                p = clone(plan)
                del p["threads"][a][b]["faults"]
                yield from seeds(p)
    if plan["fine"]:
        yield from seeds(dict(clone(plan), fine=False))
    for a in range(len(ths)):
        for b in range(len(ths[a])):
            for c in calls.simpler(ths[a][b]):
                p = clone(plan)
                p["threads"][a][b] = c
                yield p
    for i, f in enumerate(fs):
        for j, q in enumerate(f["child"]["calls"]):
            for c in calls.simpler(q):
                p = clone(plan)
                p["forks"][i]["child"]["calls"][j] = c
                yield p
