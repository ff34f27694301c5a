"""C11: the package works without its optional dependencies."""
import builtins
import importlib
import sys
import types

from .. import boot
from .common import *

ID = "C11"
BUDGET = {"quick": (6000, 75), "thorough": (2_000_000, 1800)}
RULE = ("the package is imported under a faulty import system (modules absent, failing while they "
        "execute, of another version, the k-th import statement failing, an interrupt or an "
        "allocation failure at any step of the import), retried when it raised, and then numpy calls "
        "(torch calls when torch is usable) are compared with the same calls in a healthy process; "
        "non-trivial if at least one import fault fired; distinct by event-log digest")
REAL = ["fast_bss_eval, all modules, unmodified, imported afresh under each fault",
        "numpy, scipy and torch kernels, CPython 3.12 import system"]
STUB = ["module finders (report modules as absent)", "loader of a broken module (raises ImportError)",
        "builtins.__import__ as seen by the package (raises at chosen imports)",
        "distutils.version.LooseVersion (Python 3.12 has none)", "torch_complex (empty module)",
        "torch.__version__"]

OPTIONAL_ROOTS = ("torch", "torch_complex", "packaging", "distutils", "setuptools")
GOOD_VERSIONS = ["1.8.0", "1.8.1+cpu", "1.9.0", "1.10.0", "1.10.2+cu113", "1.11.0", "1.12.1",
                 "1.13.1", "2.0.0", "2.0.1+cu118", "2.1.0a0+git1234567", "2.10.0.dev20250101+cpu",
                 "10.0.0"]
OLD_VERSIONS = ["1.7.1", "1.7.0+cpu", "1.6.0", "1.5.1", "1.4.0", "1.0.1", "0.4.1", "1.2.0a0+git1"]


def gen_calls(rng):
    out = []
    for _ in range(rng.randint(2, 4)):
        out.append(calls.gen_call(rng, backend="np", big=False, fx=0.05))
    t = calls.gen_call(rng, backend="pt", big=False)
    return {"np": out, "pt": [t]}


def generate(rng, tier):
    k = rng.weighted([("absent", 5), ("broken", 3), ("version", 3), ("old", 3), ("kth", 6),
                      ("step", 5), ("double", 2)])
    p = {"kind": k, "calls": gen_calls(rng)}
    env = {"absent": [], "broken": [], "stub": []}
    if k == "absent":
        env["absent"] = rng.choice([["torch"], ["torch"], ["torch", "packaging"],
                                    ["packaging"], ["packaging", "distutils"], ["torch.fft"],
                                    ["torch", "torch_complex", "packaging", "distutils"],
                                    ["torch_complex"]])
        if env["absent"] == ["packaging"]:
            env["stub"] = ["distutils"]
    elif k == "broken":
        env["broken"] = rng.choice([["torch"], ["torch"], ["packaging"], ["torch", "packaging"],
                                    ["packaging", "distutils"]])
        if env["broken"] == ["packaging"]:
            env["stub"] = ["distutils"]
    elif k == "version":
        env["version"] = rng.choice(GOOD_VERSIONS)
        if rng.chance(0.3):
            env["absent"] = ["packaging"]
            env["stub"] = ["distutils"]
    elif k == "old":
        env["version"] = rng.choice(OLD_VERSIONS)
        env["absent"] = ["torch_complex"]
        r = rng.random()
        if r < 0.25:
            env["absent"] = []
            env["broken"] = ["torch_complex"]
        elif r < 0.5:
            env["absent"] = []
            env["stub"] = ["torch_complex"]
        if rng.chance(0.3):
            env["absent"] = env["absent"] + ["packaging"]
            env["stub"] = env["stub"] + ["distutils"]
    elif k == "kth":
        p["at"] = [[rng.random(), rng.choice(["ImportError", "ModuleNotFoundError", "ImportError",
                                              "KeyboardInterrupt", "MemoryError"]),
                    rng.chance(0.4)]]
    elif k == "double":
        p["at"] = sorted([rng.random(), rng.choice(["ImportError", "ModuleNotFoundError"]), False]
                         for _ in range(rng.randint(2, 4)))
        if rng.chance(0.3):
            p["step"] = [rng.random(), "KeyboardInterrupt"]
    elif k == "step":
        p["step"] = [rng.random(), rng.choice(["KeyboardInterrupt", "KeyboardInterrupt",
                                               "MemoryError", "RecursionError"])]
    if k in ("kth", "step", "double") and rng.chance(0.25):
        env["absent"] = [rng.choice(["torch", "packaging"])]
        if env["absent"] == ["packaging"]:
            env["stub"] = ["distutils"]
    p["env"] = env
    if rng.chance(0.3):
        p["reimports"] = rng.randint(1, 2)
    return p


# --------------------------------------------------------------------------
# faulty import system

class LooseVersion:
    """What distutils.version.LooseVersion does."""
    import re as _re
    component_re = _re.compile(r"(\d+ | [a-z]+ | \.)", _re.VERBOSE)

    def __init__(self, s):
        self.vstring = s
        parts = [x for x in self.component_re.split(s) if x and x != "."]
        for i, x in enumerate(parts):
            try:
                parts[i] = int(x)
            except ValueError:
                pass
        self.version = parts

    def _cmp(self, o):
        o = LooseVersion(o) if isinstance(o, str) else o
        a, b = self.version, o.version
        return 0 if a == b else (-1 if a < b else 1)

    def __eq__(self, o):
        return self._cmp(o) == 0

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0


def stub_modules(name):
    if name == "distutils":
        d = types.ModuleType("distutils")
        d.__path__ = []
        v = types.ModuleType("distutils.version")
        v.LooseVersion = LooseVersion
        v.StrictVersion = LooseVersion
        d.version = v
        return {"distutils": d, "distutils.version": v}
    m = types.ModuleType(name)
    if name == "torch_complex":
        m.ComplexTensor = type("ComplexTensor", (), {})
        m.einsum = None
    return {name: m}


class BrokenLoader:
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise ImportError("lib%s.so.1: cannot open shared object file: No such file or directory"
                          % module.__name__)


class Finder:
    def __init__(self, real, env):
        self.real, self.env = real, env

    def find_spec(self, name, path=None, target=None):
        for a in self.env["absent"]:
            if name == a or name.startswith(a + "."):
                self.env["hits"] += 1
                return None
        for b in self.env["broken"]:
            if name == b or name.startswith(b + "."):
                self.env["hits"] += 1
                import importlib.machinery
                return importlib.machinery.ModuleSpec(name, BrokenLoader(), is_package=True)
        return self.real.find_spec(name, path, target)

    def __getattr__(self, n):
        return getattr(self.real, n)


def _under(name, roots):
    return any(name == r or name.startswith(r + ".") for r in roots)


class Importing:
    """The import system as the package sees it."""

    def __init__(self, env, at=(), names=None):
        self.env = dict(env, hits=0)
        self.at = at                    # {index: (kind, sticky)}
        self.names = names
        self.count = 0
        self.fired = []
        self.sticky = set()
        self.active = True

    def __enter__(self):
        e = self.env
        self.meta = list(sys.meta_path)
        self.gone = {}
        roots = list(e["absent"]) + list(e["broken"])
        if "distutils" in e["stub"]:
            roots.append("distutils")
        for m in list(sys.modules):
            if _under(m, roots):
                self.gone[m] = sys.modules.pop(m)
        self.attrs = []
        for r in roots:                 # `torch.fft` as an attribute of torch
            if "." in r:
                parent, leaf = r.rsplit(".", 1)
                pm = sys.modules.get(parent)
                if pm is not None and hasattr(pm, leaf):
                    self.attrs.append((pm, leaf, getattr(pm, leaf)))
                    delattr(pm, leaf)
        for s in e["stub"]:
            sys.modules.update(stub_modules(s))
        sys.meta_path[:] = [f if f is loader._finder else Finder(f, e) for f in sys.meta_path]
        self.version = torch.__version__
        if e.get("version"):
            torch.__version__ = e["version"]
        self.real_import = builtins.__import__
        builtins.__import__ = self._import
        return self

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        who = (globals or {}).get("__name__") or ""
        if self.active and (who == "fast_bss_eval" or who.startswith("fast_bss_eval.")):
            i = self.count
            self.count += 1
            key = (who, name, tuple(fromlist or ()), level)
            if self.names is not None:
                self.names.append(key)
            f = self.at.get(i) if self.at else None
            if key in self.sticky:
                f = ("ImportError", True)
            if f:
                self.fired.append([i, key, f[0]])
                if f[1]:
                    self.sticky.add(key)
                raise_import(f[0], name or ",".join(fromlist or ()))
        return self.real_import(name, globals, locals, fromlist, level)

    def __exit__(self, *a):
        builtins.__import__ = self.real_import
        torch.__version__ = self.version
        sys.meta_path[:] = self.meta
        e = self.env
        roots = list(e["absent"]) + list(e["broken"]) + list(e["stub"])
        for m in list(sys.modules):
            if _under(m, roots):
                del sys.modules[m]
        sys.modules.update(self.gone)
        for pm, leaf, v in self.attrs:
            setattr(pm, leaf, v)
        importlib.invalidate_caches()


def raise_import(kind, name):
    if kind == "ImportError":
        raise ImportError("cannot import %r (simulated)" % name, name=name)
    if kind == "ModuleNotFoundError":
        raise ModuleNotFoundError("No module named %r (simulated)" % name, name=name)
    if kind == "KeyboardInterrupt":
        raise KeyboardInterrupt("simulated")
    if kind == "RecursionError":
        raise RecursionError("simulated")
    raise MemoryError("simulated")


def optional(key):
    who, name, fromlist, level = key
    if who.startswith("fast_bss_eval.torch"):
        return True
    if level == 0:
        return _under(name, OPTIONAL_ROOTS)
    return who == "fast_bss_eval" and (_under(name, ("torch",)) or (not name and fromlist == ("torch",)))


_dry = {}


def dry(env):
    """Import statements and steps of a healthy import under `env`."""
    key = repr(sorted(env.items()))
    if key not in _dry:
        names = []
        sim = core.Sim()
        with core.locks_patched(), Importing(env, names=names), sim.inline() as t:
            t.budget = BIG_BUDGET
            try:
                loader.fresh()
            except Exception:
                pass
            _dry[key] = (names, t.opsteps)
        loader.detach()
    return _dry[key]


def execute(plan):
    env = plan["env"]
    specs = plan["calls"]
    want = {"np": [calls.solo(s) for s in specs["np"]], "pt": [calls.solo(s) for s in specs["pt"]]}
    names, steps = dry(env) if plan["kind"] in ("kth", "double", "step") else ([], 0)
    loader.detach()
    ambient.reset()
    at = {}
    for f, kind, sticky in plan.get("at") or ():
        at[min(len(names) - 1, int(f * len(names)))] = (kind, sticky)
    sim = core.Sim()
    v = None
    faults = {}
    retried = 0
    tr = []
    torch_absent = _under("torch", env["absent"]) or "torch" in env["broken"]
    torch_off = (torch_absent or "torch.fft" in env["absent"]
                 or (plan["kind"] == "old")
                 or all(_under(m, env["absent"] + env["broken"]) for m in ("packaging", "distutils")))
    with core.locks_patched(), Importing(env, at) as imp, sim.inline() as t:
        t.budget = BIG_BUDGET
        if plan.get("step"):
            k = 1 + min(max(0, steps - 1), int(plan["step"][0] * steps))

            def boom(task, kind=plan["step"][1]):
                faults["step:" + kind] = faults.get("step:" + kind, 0) + 1
                raise_import(kind, "?")
            t.opsteps = 0
            t.irqs = {k: boom}
        loader.detach()
        pkg, err = None, None
        for attempt in range(8):
            n0 = len(imp.fired)
            s0 = sum(faults.values())
            if attempt:
                # the fault has cleared
                imp.at = {}
                imp.sticky = set()
                t.irqs = {}
                retried += 1
            try:
                pkg = importlib.import_module("fast_bss_eval")
                err = None
            except (core.SimAbort, SystemExit):
                raise
            except BaseException as e:
                err = e
                calls._scrub(e)
            new = imp.fired[n0:]
            step_now = sum(faults.values()) - s0
            tr.append([attempt, [list(map(str, f)) for f in new], repr(err)])
            sim.note("import", attempt, [f[:1] + [str(f[1]), f[2]] for f in new], type(err).__name__)
            hard = step_now > 0 or any(not (optional(f[1]) and f[2] in ("ImportError",
                                                                         "ModuleNotFoundError"))
                                       for f in new)
            if err is None:
                break
            if not hard:
                v = vio("import", "importing the package raised %s: %s although only optional "
                        "dependencies failed (%s; %s)" % (type(err).__name__, str(err)[:150],
                                                          plan_env(plan), new))
                break
        for f in imp.fired:
            faults["import:" + f[2]] = faults.get("import:" + f[2], 0) + 1
        if imp.env["hits"]:
            for a in env["absent"]:
                faults["absent"] = faults.get("absent", 0) + 1
            for a in env["broken"]:
                faults["broken"] = faults.get("broken", 0) + 1
        if env.get("version"):
            faults["version"] = 1
        t.irqs = {}
        imp.at, imp.sticky = {}, set()
        if v is None and err is not None:
            v = vio("retry", "the package cannot be imported after a transient failure: %s: %s (%s)" % (
                type(err).__name__, str(err)[:150], plan_env(plan)))
        # a failure that the import swallowed may cost the torch backend; an
        # interrupt may not (it has to reach the caller)
        soft = err is None and (
            any(f[2] != "KeyboardInterrupt" for f in new)
            or (step_now > 0 and plan["step"][1] != "KeyboardInterrupt"))
        if v is None:
            for _ in range(plan.get("reimports", 0)):
                p2 = importlib.import_module("fast_bss_eval")
                if p2 is not pkg:
                    v = vio("reimport", "importing again gives another module (%s)" % plan_env(plan))
            for s, w in zip(specs["np"], want["np"]):
                if v:
                    break
                o, _ = do_call(t, pkg, s, calls.build(s))
                note_outcome(sim, o)
                d = hang(o) or calls.confirmed_diff(o, w, s)
                if d:
                    v = vio("numpy", "%s: %s; %s (a fresh healthy process gives the expected)" % (
                        plan_env(plan, imp.fired), calls.describe(s), d))
            if v is None and not torch_absent:
                # attribute errors here would make numpy users fail as well
                for fn in calls.TOP:
                    if not callable(getattr(pkg, fn, None)):
                        v = vio("api", "%s: fast_bss_eval.%s is missing" % (plan_env(plan), fn))
                        break
            if v is None and not torch_off and not soft:
                for s, w in zip(specs["pt"], want["pt"]):
                    o, _ = do_call(t, pkg, s, calls.build(s))
                    note_outcome(sim, o)
                    d = hang(o) or calls.confirmed_diff(o, w, s)
                    if d:
                        v = vio("torch", "%s: torch is usable, but %s; %s" % (
                            plan_env(plan, imp.fired), calls.describe(s), d))
                        break
    loader.detach()
    st = sim_stats(sim, calls=len(specs["np"]) + len(specs["pt"]), faults=faults, retries=retried,
                   imports=1 + retried)
    return result(sim, v, st, nt=bool(faults), trace=tr if v else None)


def plan_env(plan, fired=()):
    e = {k: x for k, x in plan["env"].items() if x}
    s = "import under %s %s" % (plan["kind"], json.dumps(e, sort_keys=True))
    if plan.get("step"):
        s += " step=%s" % plan["step"][1]
    if fired:
        s += " failed=%s" % [(f[1][0], f[1][1] or f[1][2], f[2]) for f in fired]
    return s


def shrink(plan, res):
    p = clone(plan)
    if len(p.get("at") or ()) > 1:
        for c in ddmin_list(p["at"]):
            yield dict(clone(p), at=c)
    for k in ("absent", "broken", "stub"):
        for i in range(len(p["env"][k])):
            q = clone(p)
            q["env"][k].pop(i)
            if q["env"]["absent"] or q["env"]["broken"] or q["env"].get("version") or \
                    q.get("at") or q.get("step"):
                yield q
    if p.get("reimports"):
        q = clone(p)
        q.pop("reimports")
        yield q
    for kind in ("np", "pt"):
        for c in ddmin_list(p["calls"][kind]):
            q = clone(p)
            q["calls"][kind] = c
            yield q
        for i, s in enumerate(p["calls"][kind]):
            for s2 in calls.simpler(s):
                q = clone(p)
                q["calls"][kind][i] = s2
                yield q
