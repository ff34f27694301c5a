"""Seeded search over simulated runs: work distribution, watchdog,
minimisation, replay files and evidence."""
import collections
import hashlib
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

from . import boot, loader
from .rng import stream

REPLAYS = os.path.join(boot.VERIF, "replays")
KNOWN = os.path.join(boot.VERIF, "known_findings.txt")
STALL_S = 150.0


def load_prop(pid):
    return importlib.import_module("sim.props." + pid.lower())


def prepare():
    """Everything that must be loaded before the first fork."""
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import scipy.fft
    import scipy.linalg
    import scipy.optimize
    import scipy.signal
    import torch
    torch.set_num_threads(1)
    # touch lazily initialised parts of the libraries (never the package itself)
    a = np.eye(3)
    scipy.optimize.linear_sum_assignment(a)
    scipy.linalg.toeplitz([1.0, 2.0])
    np.linalg.solve(a, a)
    t = torch.eye(3)
    torch.linalg.solve(t, t)
    torch.fft.irfft(torch.fft.rfft(t))
    torch.einsum("...ab,...bc->...ac", t, t)
    str(t)
    from . import ambient, calls, core
    loader.install()
    for d, _, files in sorted(os.walk(os.path.join(boot.REPO, loader.PKG))):
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                loader._Loader("x", p).get_code("x")
    core.install()
    import gc
    gc.collect()
    gc.freeze()         # the libraries' own objects: never scanned again
    ambient.baseline()
    ambient.capture_restore_point()
    return calls


def code_hash():
    h = hashlib.sha256()
    for d, _, files in sorted(os.walk(os.path.join(boot.REPO, loader.PKG))):
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:16]


def execute(prop, plan):
    """One simulated run, from a clean process state."""
    from . import ambient, calls
    ambient.reset()
    loader.detach()
    try:
        return prop.execute(plan)
    finally:
        loader.detach()
        ambient.reset()


def make_plan(prop, seed, i, tier):
    return prop.generate(stream(prop.ID, seed, i), tier)


# --------------------------------------------------------------------------
# forked execution

def _child(fd, prop, fn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    out = os.fdopen(fd, "w", buffering=1)
    code = 0
    try:
        fn(lambda o: out.write(json.dumps(o) + "\n"))
    except BaseException:
        try:
            out.write(json.dumps({"e": traceback.format_exc()}) + "\n")
        except Exception:
            pass
        code = 3
    finally:
        try:
            out.flush()
        finally:
            os._exit(code)


class Job:
    def __init__(self, prop, fn, meta=None):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            boot.die_with_parent()
            os.close(r)
            _child(w, prop, fn)
        os.close(w)
        os.set_blocking(r, False)
        self.fd, self.buf, self.meta = r, b"", meta
        self.last = time.monotonic()
        self.at = None
        self.eof = False
        self.status = None

    def lines(self):
        out = []
        while True:
            try:
                b = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                break
            if not b:
                self.eof = True
                break
            self.buf += b
            self.last = time.monotonic()
        *full, self.buf = self.buf.split(b"\n")
        for l in full:
            o = json.loads(l)
            if "b" in o:
                self.at = o["b"]
            out.append(o)
        return out

    def finish(self):
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        self.status = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        return self.status

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        return self.finish()


CRASHES = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL}


def run_forked(prop, plan, prelude=(), timeout=STALL_S):
    """Execute plans in a fresh fork; result of the last one."""
    def body(emit):
        for p in prelude:
            try:
                execute(prop, p)
            except Exception:
                pass
        emit({"r": execute(prop, plan)})
    j = Job(prop, body)
    res, err = None, None
    t0 = time.monotonic()
    while not j.eof:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            j.kill()
            return {"v": {"key": "stall", "msg": "no progress for %d s of real time" % timeout},
                    "digest": 0, "stats": {}}
        select.select([j.fd], [], [], min(left, 1.0))
        for o in j.lines():
            if "r" in o:
                res = o["r"]
            elif "e" in o:
                err = o["e"]
    st = j.finish()
    if res is None:
        if st in CRASHES:
            return {"v": {"key": "crash", "msg": "process killed by signal %d" % -st},
                    "digest": 0, "stats": {}}
        raise RuntimeError("run failed in the harness: %s" % (err or "exit status %s" % st))
    return res


def same_violation(a, b):
    return bool(a.get("v")) and bool(b.get("v")) and a["v"]["key"] == b["v"]["key"]


# --------------------------------------------------------------------------
# the search

def merge(tot, st):
    for k, v in st.items():
        if isinstance(v, dict):
            merge(tot.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            tot[k] = tot.get(k, 0) + v


class Search:
    def __init__(self, pid, tier, seed, runs, wall, jobs, chunk=20, verbose=False, start=0):
        self.prop = load_prop(pid)
        self.pid, self.tier, self.seed = pid, tier, seed
        self.runs, self.wall, self.njobs, self.chunk = runs, wall, jobs, chunk
        self.verbose = verbose
        self.start = start
        self.next = start
        self.unreproduced = []
        self.soft = []
        self.lost = []
        self.done = 0
        self.stats = {}
        self.sigs = set()
        self.nontrivial = set()
        self.samples = []
        self.errors = []
        self.hit = None
        self.known_hits = {}
        self.repro_checked = 0
        self.repro_ok = 0
        self.t0 = time.monotonic()

    def _chunk_fn(self, a, b):
        prop, seed, tier = self.prop, self.seed, self.tier

        def body(emit):
            first = None
            for i in range(a, b):
                emit({"b": i})
                plan = make_plan(prop, seed, i, tier)
                r = execute(prop, plan)
                if i == a:
                    first = (plan, r["digest"])
                o = {"i": i, "d": r["digest"], "s": r.get("stats", {}), "nt": r.get("nt", True)}
                if r.get("sig"):
                    o["g"] = r["sig"]
                if i == a and a % (self.chunk * 8) == self.start % (self.chunk * 8):
                    o["sample"] = r.get("sample") or plan
                if r.get("v"):
                    o["v"] = r["v"]
                    emit(o)
                    return
                emit(o)
            if first is not None and (a // self.chunk) % 5 == 0:
                emit({"b": a})
                r = execute(prop, first[0])
                emit({"rep": r["digest"] == first[1], "i2": a})
        return body

    def run(self):
        live = {}
        nxt = self.next
        end = self.start + self.runs
        stop = False
        while True:
            over = time.monotonic() - self.t0 > self.wall
            while not stop and not over and nxt < end and len(live) < self.njobs:
                b = min(nxt + self.chunk, end)
                j = Job(self.prop, self._chunk_fn(nxt, b), (nxt, b))
                live[j.fd] = j
                self.next = nxt = b
            if not live:
                break
            r, _, _ = select.select(list(live), [], [], 0.5)
            for fd in r:
                j = live[fd]
                for o in j.lines():
                    self._take(j, o)
                if j.eof:
                    del live[fd]
                    st = j.finish()
                    if st != 0 and not (self.hit or self.errors):
                        self._died(j, st)
            now = time.monotonic()
            for fd, j in list(live.items()):
                if now - j.last > STALL_S:
                    del live[fd]
                    j.kill()
                    self._died(j, "stall")
            if self.hit or self.errors:
                stop = True
                for fd, j in list(live.items()):
                    j.kill()
                live.clear()
                break
        return self

    def _take(self, j, o):
        if "e" in o:
            self.errors.append("run %s: %s" % (j.at, o["e"]))
            return
        if "rep" in o:
            self.repro_checked += 1
            self.repro_ok += bool(o["rep"])
            return
        if "i" not in o:
            return
        self.done += 1
        merge(self.stats, o["s"])
        self.sigs.add(o["d"])
        if o["nt"]:
            self.nontrivial.add(o.get("g", o["d"]))
        if "sample" in o and len(self.samples) < 3:
            self.samples.append({"run": o["i"], "plan": o["sample"]})
        if "v" in o:
            self._violation(j.meta[0], o["i"], o["v"])

    def _violation(self, start, i, v):
        k = known_match(self.pid, v)
        if k:
            self.known_hits[k] = v["msg"]
            return
        if self.hit is None:
            self.hit = {"i": i, "v": v, "start": start}

    def _died(self, j, st):
        i = j.at
        if i is None:
            self.errors.append("worker died before its first run (status %s)" % st)
            return
        plan = make_plan(self.prop, self.seed, i, self.tier)
        try:
            r = run_forked(self.prop, plan)
        except RuntimeError as e:
            self.errors.append(str(e))
            return
        if r.get("v"):
            if r["v"]["key"] == "stall" and not getattr(self.prop, "STALL_IS_VIOLATION", False):
                m = "run %d stalled in real time" % i
                self.lost.append(m)
                if len(self.lost) > 3:
                    self.errors.append(m)
                return
            self._violation(j.meta[0], i, r["v"])
        else:
            # not reproducible on its own: with the runs that came before it
            pre = [make_plan(self.prop, self.seed, k, self.tier) for k in range(j.meta[0], i)]
            r = run_forked(self.prop, plan, pre)
            if r.get("v"):
                self._violation(j.meta[0], i, r["v"])
            else:
                m = "worker died at run %d (status %s), not reproducible" % (i, st)
                self.lost.append(m)
                if len(self.lost) > 3:
                    self.errors.append(m)


# --------------------------------------------------------------------------
# known findings

def known_list():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and l.startswith("{"):
                out.append(json.loads(l))
    return out


def known_match(pid, v):
    for k in known_list():
        if k.get("status") == "open" and k["property"] == pid and k.get("key") == v.get("finding"):
            return k["key"]
    return None


# --------------------------------------------------------------------------
# minimisation

def minimise(prop, plan, res, prelude, limit_s, log):
    t_end = time.monotonic() + limit_s
    best, bres = plan, res

    def attempt(p):
        try:
            return run_forked(prop, p, prelude, timeout=max(20.0, min(STALL_S, limit_s)))
        except RuntimeError:
            return {"v": None}

    if res["v"]["key"] == "stall":
        return best, bres
    while prelude and time.monotonic() < t_end:
        # drop preceding runs that do not matter
        for k in range(len(prelude)):
            cand = prelude[:k] + prelude[k + 1:]
            r = run_forked(prop, best, cand)
            if same_violation(r, bres):
                prelude = cand
                break
        else:
            break
    progress = True
    tried = 0
    while progress and time.monotonic() < t_end:
        progress = False
        for cand in prop.shrink(best, bres):
            if time.monotonic() > t_end:
                break
            tried += 1
            r = attempt(cand)
            if same_violation(r, bres):
                best, bres = cand, r
                progress = True
                break
    # make the schedule explicit, then drop decisions
    if hasattr(prop, "concretise") and time.monotonic() < t_end + 10:
        c = prop.concretise(best, bres)
        if c is not None:
            r = attempt(c)
            if same_violation(r, bres):
                best, bres = c, r
                progress = True
                while progress and time.monotonic() < t_end + 20:
                    progress = False
                    for cand in prop.shrink_schedule(best):
                        if time.monotonic() > t_end + 20:
                            break
                        tried += 1
                        r = attempt(cand)
                        if same_violation(r, bres):
                            best, bres = cand, r
                            progress = True
                            break
    log("minimised in %d attempts" % tried)
    return (best, bres) if not prelude else (best, dict(bres, prelude=prelude))


def write_replay(prop, tier, seed, i, plan, res, prelude):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d-run%d.json" % (prop.ID, seed, i))
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "seed": seed, "run": i, "tier": tier,
                   "code": code_hash(), "violation": res["v"], "digest": res["digest"],
                   "prelude": prelude, "plan": plan, "trace": res.get("trace")},
                  f, indent=1)
        f.write("\n")
    return path


def replay(path, verbose=True):
    """Re-execute a replay file.  Returns (reproduced, identical, result)."""
    with open(path) as f:
        rp = json.load(f)
    prop = load_prop(rp["property"])
    res = run_forked(prop, rp["plan"], rp.get("prelude") or ())
    got = same_violation(res, {"v": rp["violation"]})
    ident = got and res["digest"] == rp["digest"]
    if verbose:
        print("replay %s: %s" % (path, "reproduced" + (" identically" if ident else "")
                                 if got else "NOT reproduced"))
        if res.get("v"):
            print("  " + res["v"]["msg"])
        if rp["code"] != code_hash():
            print("  (the code differs from the code the replay was recorded on)")
        if got:
            print("VIOLATION property=%s replay=%s" % (rp["property"], path))
    return got, ident, res


def report(search, log):
    """Turn the violation found by a search into a verified replay file."""
    prop, h = search.prop, search.hit
    plan = make_plan(prop, search.seed, h["i"], search.tier)
    prelude = []
    res = {"v": h["v"], "digest": 0}
    r = run_forked(prop, plan)
    if not same_violation(r, res):
        prelude = [make_plan(prop, search.seed, k, search.tier) for k in range(h["start"], h["i"])]
        r = run_forked(prop, plan, prelude)
        if not same_violation(r, res):
            for _ in range(3):
                r = run_forked(prop, plan)
                if r.get("v"):
                    prelude = []
                    break
            else:
                return None
    if r["v"]["key"] == "stall" and not getattr(prop, "STALL_IS_VIOLATION", False):
        return None
    log("violation in run %d: %s" % (h["i"], r["v"]["msg"]))
    best, bres = minimise(prop, plan, r, prelude, 40.0 if search.tier == "quick" else 120.0, log)
    prelude = bres.pop("prelude", prelude if prelude else [])
    path = write_replay(prop, search.tier, search.seed, h["i"], best, bres, prelude)
    ok = subprocess.run([sys.executable, "-m", "sim.main", "replay", path],
                        cwd=boot.VERIF, capture_output=True, text=True, timeout=600)
    if ok.returncode != 1 and best is not plan:
        path = write_replay(prop, search.tier, search.seed, h["i"], plan, r, prelude)
        ok = subprocess.run([sys.executable, "-m", "sim.main", "replay", path],
                            cwd=boot.VERIF, capture_output=True, text=True, timeout=600)
    log(ok.stdout.strip() + ok.stderr.strip()[-500:])
    log("violation: " + bres["v"]["msg"])
    return path


def report_raw(search):
    """Five different runs violated the property, none reproducibly: the code
    itself is not deterministic.  The replay file repeats the whole chunk."""
    h = search.hit
    plan = make_plan(search.prop, search.seed, h["i"], search.tier)
    pre = [make_plan(search.prop, search.seed, k, search.tier) for k in range(h["start"], h["i"])]
    return write_replay(search.prop, search.tier, search.seed, h["i"], plan,
                        {"v": h["v"], "digest": 0}, pre)


def evidence(search, violations, extra=None):
    p = search.prop
    wall = time.monotonic() - search.t0
    st = search.stats
    cov = {
        "evaluations": search.done,
        "distinct_nontrivial": len(search.nontrivial),
        "rule": p.RULE,
        "samples": _fit(search.samples),
        "runs_per_hour": int(search.done / max(wall, 1e-9) * 3600),
        "seeds": "one per run, derived from the base seed and the run's number",
        "simulated_seconds": round(st.get("sim_s", 0.0), 3),
        "simulated_steps": int(st.get("steps", 0)),
        "faults_injected": st.get("faults", {}),
        "distinct_interleavings": len(search.sigs),
        "distinct_interleavings_measure":
            "distinct digests of the full event log of a run (every step, thread switch, "
            "fault and outcome, in order)",
        "counts": {k: v for k, v in sorted(st.items())
                   if k not in ("sim_s", "steps", "faults")},
        "runs_reexecuted": search.repro_checked,
        "runs_reexecuted_identically": search.repro_ok,
        "real_components": getattr(p, "REAL", REAL),
        "stub_components": getattr(p, "STUB", STUB),
        "base_seed": search.seed,
        "code": code_hash(),
    }
    cov.update(extra or {})
    ev = {"property": p.ID, "tier": search.tier, "seed": search.seed, "level": "exploration",
          "coverage": cov, "assumptions": getattr(p, "ASSUME", ASSUME),
          "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, p.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return ev


def _fit(samples):
    out = []
    for s in samples:
        if len(json.dumps(s)) < 12000:
            out.append(s)
    return out or [{"note": "samples too large to list"}]


REAL = ["fast_bss_eval, all modules, unmodified, imported afresh from the working tree",
        "numpy, scipy and torch kernels, autograd, CPython 3.12 interpreter and memory management"]
STUB = ["thread scheduler (one thread runs at a time; switches only at recorded steps)",
        "time.* (virtual clock)", "threading locks created by the package (scheduler-owned)",
        "failing kernels (the exception is raised in place of the call)"]
ASSUME = ["a C call into numpy, scipy or torch is one atomic step of the simulation",
          "one numeric thread per process (OMP/MKL/OPENBLAS_NUM_THREADS=1)",
          "the reference for a call is the same call made alone by a fresh instance of the "
          "package in the same tree; comparisons allow rounding differences only"]
