"""C06: results do not depend on ambient process state."""
import ctypes
import decimal
import gc
import logging
import multiprocessing
import os
import platform
import random as _random
import resource
import tempfile
import threading
import types
import warnings

from importlib import machinery

from .. import twin
from .common import *

ID = "C06"
BUDGET = {"quick": (9000, 110), "thorough": (1_000_000, 2400)}
RULE = ("1-3 calls made under 1-4 seeded ambient settings chosen before the call or changed at a "
        "seeded step in the middle of it; every outcome is compared with the same call under "
        "default settings; non-trivial if at least one setting was changed; distinct by event-log digest")

# name -> (how often, thread-local: may only change before the call)
SETTINGS = [("f64", 5), ("bf16", 2), ("f16", 1), ("device", 2), ("nograd", 3), ("inference", 2),
            ("nprng", 2), ("ptrng", 2), ("pyrng", 1), ("clock", 2), ("slow", 2), ("err_ignore", 2),
            ("err_call", 1), ("err_warn", 1), ("gcoff", 1), ("gchot", 2), ("cwd", 1), ("npo", 1),
            ("warn_ignore", 1), ("warn_always", 1), ("decimal", 1), ("heap", 3),
            ("deterministic", 1), ("fill", 2), ("threads", 1), ("env", 1), ("bufsize", 1),
            ("recursion", 1), ("argv", 1), ("switch", 1), ("tz", 1), ("tpo", 1), ("opt_einsum", 1),
            ("anomaly", 1), ("collected", 1), ("pool", 2)]
SETTINGS += [("facts", 3), ("loglevel", 1), ("modules", 1), ("interactive", 1), ("traced", 1)]
OTHERS = ["IPython", "ipykernel", "pdb", "coverage", "pydevd", "mir_eval", "joblib", "pytest",
          "museval", "soundfile", "librosa", "ray", "dask", "gevent", "tornado", "matplotlib"]
BEFORE_ONLY = {"inference", "anomaly", "heap"}
_libc = ctypes.CDLL(None)


class Facts:
    """What the process can find out about its machine and its environment:
    answered by the simulator when the package itself asks (not a library)."""
    answers = None
    ENV = ["1", "0", "true", "64", "", "float32", "debug", "cg", "/nowhere"]
    PKGDIR = os.path.join(loader.boot.REPO, loader.PKG) + os.sep

    @classmethod
    def asked(cls):
        if cls.answers is None:
            return False
        f = sys._getframe(2)
        for _ in range(8):
            if f is None:
                return False
            fn = f.f_code.co_filename
            if fn.startswith(cls.PKGDIR):
                return True
            if "site-packages" in fn or fn.startswith(loader.boot.VERIF + os.sep):
                return False
            f = f.f_back
        return False

    def __enter__(self):
        self.saved = []
        Facts.answers = None

        def put(o, n, ans):
            if not hasattr(o, n):
                return
            real = getattr(o, n)

            def f(*a, **k):
                if Facts.asked():
                    return ans(Facts.answers, real, a, k)
                return real(*a, **k)
            self.saved.append((o, n, o.__dict__.get(n, real)))
            setattr(o, n, f)
        pick = lambda xs: lambda r, real, a, k: xs[int(r * len(xs)) % len(xs)]
        for n in ("cpu_count", "process_cpu_count"):
            put(os, n, pick([1, 3, 64, None]))
        put(multiprocessing, "cpu_count", pick([1, 3, 64]))
        put(os, "sched_getaffinity", pick([{0}, set(range(64))]))
        put(os, "getloadavg", pick([(0.0, 0.0, 0.0), (90.0, 80.0, 70.0)]))
        put(os, "sysconf", lambda r, real, a, k: max(1, int(real(*a) * r * r)))
        put(os, "getppid", pick([1, 77]))
        for n, xs in (("machine", ["aarch64", "x86_64"]), ("system", ["Darwin", "Windows"]),
                      ("node", ["node1", "gpu7"]), ("processor", ["", "arm"]),
                      ("python_implementation", ["PyPy", "CPython"])):
            put(platform, n, pick(xs))
        put(threading, "active_count", pick([1, 2, 33]))
        put(resource, "getrusage", lambda r, real, a, k: _Usage(real(*a), r))
        put(resource, "getrlimit", lambda r, real, a, k: (int(r * 2 ** 32), int(r * 2 ** 32)))
        put(resource, "getpagesize", pick([4096, 65536]))
        put(torch.cuda, "is_available", lambda r, real, a, k: real())
        put(torch, "get_num_threads", pick([1, 2, 40]))
        put(torch, "get_num_interop_threads", pick([1, 2, 40]))
        put(gc, "get_count", pick([(0, 0, 0), (600, 9, 9)]))
        fake = threading.Thread(name="MainThread")
        put(threading, "main_thread", lambda r, real, a, k: fake)
        put(multiprocessing, "parent_process", pick([None, fake]))
        put(torch.utils.data, "get_worker_info", lambda r, real, a, k: _Worker)
        put(torch, "get_float32_matmul_precision", pick(["highest", "high", "medium"]))
        put(torch.backends.mkldnn, "is_available", pick([True, False]))
        put(torch.backends.mkl, "is_available", pick([True, False]))
        put(torch.backends.openmp, "is_available", pick([True, False]))
        put(sys, "gettrace", lambda r, real, a, k: _nothing)
        put(sys, "getprofile", lambda r, real, a, k: _nothing)
        put(sys, "getswitchinterval", pick([1e-6, 1.0]))
        put(os, "get_terminal_size", pick([os.terminal_size((20, 4)), os.terminal_size((300, 90))]))
        put(os, "getuid", pick([0, 1000]))
        put(os, "getpid", pick([1, 2, 99999]))
        put(os, "getcwd", pick(["/", "/nowhere"]))
        put(platform, "python_version", pick(["3.6.0", "3.99.1"]))
        for n in ("exists", "isfile", "isdir", "lexists"):
            put(os.path, n, pick([True, False]))
        put(os, "access", pick([True, False]))
        env = type(os.environ)
        real_get = env.__getitem__

        def getitem(e, k):
            if Facts.asked():
                x = int(Facts.answers * 1e6) % (len(Facts.ENV) + 1)
                if x == len(Facts.ENV):
                    raise KeyError(k)
                return Facts.ENV[x]
            return real_get(e, k)
        self.saved.append((env, "__getitem__", real_get))
        env.__getitem__ = getitem
        real_has = env.__contains__ if "__contains__" in vars(env) else None

        def contains(e, k):
            try:
                e[k]
                return True
            except KeyError:
                return False
        self.saved.append((env, "__contains__", real_has))
        env.__contains__ = contains
        return self

    def __exit__(self, *a):
        Facts.answers = None
        for o, n, x in reversed(self.saved):
            if x is None:
                delattr(o, n)
            else:
                setattr(o, n, x)


class _Worker:
    id, num_workers, seed = 1, 4, 77


def _nothing(*a):
    return None


class _Usage:
    def __init__(self, real, r):
        self._real, self._r = real, r

    def __getattr__(self, n):
        return type(getattr(self._real, n))(self._r * 1e8)


def gen_twin(rng):
    """Another interpreter (hash seed, addresses, locale, working directory)."""
    return {"twin": rng.randint(1, 4_000_000),
            "ops": [calls.gen_call(rng, fx=0.1, grad=0.12, big=rng.chance(0.1), exotic=0.05)
                    for _ in range(120)]}


def generate(rng, tier):
    if rng.chance(0.002):
        return gen_twin(rng)
    ops = []
    k = rng.weighted([(1, 6), (2, 3), (3, 1)])
    base = calls.gen_call(rng, fx=0.2, grad=0.12, big=rng.chance(0.2), exotic=0.05, rare=0.07)
    for _ in range(k):
        if rng.chance(0.5):
            s = clone(base)
            s["data"]["seed"] = rng.getrandbits(32)
        else:
            s = calls.gen_call(rng, fx=0.2, grad=0.12, big=rng.chance(0.2), exotic=0.05, rare=0.07)
        pre, mid = [], []
        for _ in range(rng.weighted([(1, 5), (2, 3), (4, 1)])):
            n = rng.weighted(SETTINGS)
            if n in BEFORE_ONLY or rng.chance(0.55) or (n == "nograd" and "grad" in s):
                pre.append([n, rng.random()])
            else:
                mid.append([rng.choice([rng.randint(1, 40), rng.randint(1, 150),
                                        rng.randint(1, 1000)]), n, rng.random()])
        if s.get("fx") and rng.chance(0.5):
            # infinite and undefined values, and what says how to treat them
            pre.append([rng.choice(["err_ignore", "err_ignore", "err_call", "err_warn", "warn_ignore",
                                    "warn_always"]), rng.random()])
        s["pre"], s["mid"] = pre, mid
        s["reset"] = rng.chance(0.5)
        ops.append(s)
    # MKL's own threads do not survive in forked workers for large systems
    # (wrong pivots, with or without this package): one thread there
    if any(s["kw"].get("filter_length", 512) * s["data"]["nref"] >= 128 for s in ops):
        for s in ops:
            s["pre"] = [x for x in s["pre"] if x[0] != "threads"]
            s["mid"] = [x for x in s["mid"] if x[1] != "threads"]
    return {"ops": ops}


def bare(s):
    return {k: v for k, v in s.items() if k not in ("pre", "mid", "reset")}


_added = {}


def unapply():
    for n, m in _added.items():
        if sys.modules.get(n) is m:
            del sys.modules[n]
    _added.clear()
    for n in ("ps1", "ps2"):
        if hasattr(sys, n):
            delattr(sys, n)
    sys.setprofile(None)
    logging.getLogger().setLevel(logging.WARNING)
    logging.disable(0)


def apply(name, r, sim, tmp):
    if name == "f64":
        torch.set_default_dtype(torch.float64)
    elif name == "bf16":
        torch.set_default_dtype(torch.bfloat16)
    elif name == "f16":
        torch.set_default_dtype(torch.float16)
    elif name == "device":
        torch.set_default_device("meta")
    elif name == "nograd":
        torch.set_grad_enabled(False)
    elif name == "nprng":
        np.random.seed(int(r * 1e6))
    elif name == "ptrng":
        torch.manual_seed(int(r * 1e6))
    elif name == "pyrng":
        _random.seed(r)
    elif name == "clock":
        sim.clock.jump((r - 0.5) * 1e7)
        sim.clock.advance(r * 1e5)
    elif name == "slow":
        sim.clock.tick = 10 ** (4 * r - 2)      # a machine that hardly gets on
    elif name == "err_ignore":
        np.seterr(all="ignore")
    elif name == "err_call":
        np.seterrcall(lambda *a: None)
        np.seterr(all="call")
    elif name == "err_warn":
        np.seterr(all="warn")
    elif name == "gcoff":
        gc.disable()
    elif name == "gchot":
        gc.set_threshold(1, 1, 1)
    elif name == "collected":
        gc.collect()
    elif name == "cwd":
        os.chdir(tmp)
    elif name == "npo":
        np.set_printoptions(precision=1, threshold=3)
    elif name == "tpo":
        torch.set_printoptions(precision=1)
    elif name == "warn_ignore":
        warnings.simplefilter("ignore")
    elif name == "warn_always":
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None
    elif name == "decimal":
        decimal.getcontext().prec = 3
    elif name == "heap":
        _libc.mallopt(-6, int(r * 254) + 1)
    elif name == "deterministic":
        torch.use_deterministic_algorithms(True, warn_only=True)
    elif name == "fill":
        torch.use_deterministic_algorithms(True, warn_only=True)
        torch.utils.deterministic.fill_uninitialized_memory = True
    elif name == "threads":
        torch.set_num_threads(2)
    elif name == "env":
        os.environ["PYTHONHASHSEED"] = "5"
        os.environ["FBE_UNRELATED"] = "1"
        os.environ["DEBUG"] = "1"
        os.environ["NO_COLOR"] = "1"
    elif name == "tz":
        os.environ["TZ"] = "Asia/Tokyo"
    elif name == "bufsize":
        np.setbufsize(16 * 64)
    elif name == "recursion":
        sys.setrecursionlimit(3000)
    elif name == "facts":
        Facts.answers = r
    elif name == "argv":
        sys.argv = ["x", "--verbose"]
    elif name == "switch":
        sys.setswitchinterval(1e-4)
    elif name == "opt_einsum":
        torch.backends.opt_einsum.enabled = False
    elif name == "anomaly":
        torch.autograd.set_detect_anomaly(True)
    elif name == "loglevel":
        logging.getLogger().setLevel(1 if r < 0.7 else 60)
        logging.disable(0 if r < 0.7 else 60)
    elif name == "modules":
        for n in OTHERS:
            if n not in sys.modules:
                m = _added[n] = types.ModuleType(n)
                m.__spec__ = machinery.ModuleSpec(n, None)
                sys.modules[n] = m
    elif name == "interactive":
        sys.ps1, sys.ps2 = ">>> ", "... "
    elif name == "traced":
        sys.setprofile(_nothing)
    elif name == "pool":
        # recycled small blocks with unrelated contents
        junk = [np.full(k, np.nan) for k in range(1, 130)] + [np.full((k, k), 3e300) for k in range(1, 12)]
        tj = [torch.full((k,), float("nan")) for k in range(1, 130, 3)]
        del junk, tj


import sys


def run_twin(plan):
    got = twin.ask(plan["ops"], plan["twin"])
    crc, v = 0, None
    for s, o in zip(plan["ops"], got):
        w = calls.solo(s)
        crc = crc_of(crc, w.ok, w.err, [(a.tobytes(), k) for a, k in w.leaves])
        d = calls.confirmed_diff(o, w, s)
        if d:
            v = vio("interpreter", "in another interpreter (hash seed %d, other working directory, "
                    "locale and time zone): %s; %s" % (plan["twin"], calls.describe(s), d))
            break
    st = {"calls": 2 * len(plan["ops"]), "faults": {"setting:other_interpreter": 1}}
    return result(crc, v, st, nt=True, trace=[v["msg"]] if v else None)


def execute(plan):
    if "twin" in plan:
        return run_twin(plan)
    want = []
    for s in plan["ops"]:
        want.append(calls.solo(bare(s)))
    ambient.reset()
    pkg = calls.fresh_pkg()
    inputs = [calls.build(bare(s)) for s in plan["ops"]]
    argv = sys.argv
    tmp = tempfile.mkdtemp(prefix="fbe-c06-")
    sim = core.Sim()
    done = {}
    v = None
    opt = torch.backends.opt_einsum.enabled
    inf = None
    tr = []
    try:
        with core.locks_patched(), Facts(), sim.inline() as t:
            for i, s in enumerate(plan["ops"]):
                nograd = False
                inp = inputs[i]
                for n, r in s["pre"]:
                    done[n] = done.get(n, 0) + 1
                    if n == "inference":
                        if inf is None and not s.get("grad"):
                            inf = torch.inference_mode()
                            inf.__enter__()
                        continue
                    apply(n, r, sim, tmp)
                nograd = not torch.is_grad_enabled() or inf is not None
                irqs = {}
                for at, n, r in s["mid"]:
                    def h(_t, n=n, r=r):
                        done[n + "@mid-call"] = done.get(n + "@mid-call", 0) + 1
                        apply(n, r, sim, tmp)
                    irqs[at] = h
                o, _ = do_call(t, pkg, bare(s), inp, irqs=irqs)
                note_outcome(sim, o)
                tr.append([calls.describe(bare(s)), s["pre"], s["mid"], o.brief()[:80]])
                w = want[i]
                if (nograd and s.get("grad")) or any(n == "nograd" for _, n, _ in s["mid"]):
                    w, o = _nograd(w), _nograd(o)
                d = hang(o) or calls.confirmed_diff(o, w, bare(s))
                if s.get("grad") and "returned nan values" in o.msg and torch.is_anomaly_enabled():
                    d = None                # anomaly detection doing its job
                if d:
                    v = vio("ambient", "under settings %s (before) and %s (mid-call): %s; %s" % (
                        [n for n, _ in s["pre"]], [[a, n] for a, n, _ in s["mid"]],
                        calls.describe(bare(s)), d))
                    break
                if s["reset"]:
                    if inf is not None:
                        inf.__exit__(None, None, None)
                        inf = None
                    sim.clock.tick = sim.clock.TICK
                    _undo(argv, opt)
    finally:
        if inf is not None:
            inf.__exit__(None, None, None)
        _undo(argv, opt)
        os.rmdir(tmp)
    st = sim_stats(sim, calls=len(plan["ops"]), faults={"setting:" + k: n for k, n in done.items()})
    return result(sim, v, st, nt=bool(done), trace=tr if v else None)


def _undo(argv, opt):
    Facts.answers = None
    unapply()
    sys.argv = argv
    _libc.mallopt(-6, 0)
    torch.backends.opt_einsum.enabled = opt
    torch.autograd.set_detect_anomaly(False)
    decimal.getcontext().prec = 28
    ambient.reset()


def _nograd(o):
    """The outcome without what gradient mode legitimately changes."""
    q = calls.Outcome()
    q.ok, q.err, q.msg, q.multi = o.ok, o.err, o.msg, o.multi
    q.leaves = [(a, k[:-2] if k.endswith(":g") else k) for a, k in o.leaves]
    return q


def shrink(plan, res):
    if "twin" in plan:
        for c in ddmin_list(plan["ops"]):
            if c:
                yield dict(plan, ops=c)
        return
    ops = plan["ops"]
    for c in ddmin_list(ops):
        if c:
            yield dict(plan, ops=c)
    for i, s in enumerate(ops):
        for k in ("pre", "mid"):
            for j in range(len(s[k])):
                p = clone(plan)
                del p["ops"][i][k][j]
                yield p
        for c in calls.simpler(s):
            p = clone(plan)
            p["ops"][i] = c
            yield p
