"""C13: a call performs no input or output of its own."""
import errno
import io
import os
import sys
import tempfile

from .common import *

ID = "C13"
BUDGET = {"quick": (7000, 75), "thorough": (2_000_000, 1800)}
RULE = ("1-6 calls (ordinary, on contents that make them fail - infinities of both signs, NaN, "
        "singular systems - with wrong arguments, or under injected kernel failures), each made once "
        "with recording streams and once with standard streams that are broken, full, closed or "
        "absent; interpreter audit events and the real file descriptors 1 and 2 are watched; "
        "non-trivial if a call failed or a stream was faulty; distinct by event-log digest")
STUB = ["sys.stdin/stdout/stderr (recording, broken, full, closed or None)",
        "file descriptors 1 and 2 (a scratch file)", "time.* (virtual clock)",
        "failing kernels (the exception is raised in place of the call)"]

BROKEN = ["epipe", "enospc", "closed", "none", "ebadf", "eintr"]
BAD = ["ndim", "length", "channels", "kwarg", "type", "empty", "none", "mixed"]


def generate(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 6)):
        s = calls.gen_call(rng, big=False, fx=0.0, grad=0.1)
        r = rng.random()
        op = {"call": s, "broken": [rng.choice(BROKEN), rng.choice(BROKEN + ["ok"])]}
        if r < 0.45:
            kinds = rng.choice([["inf", "ninf"], calls.FX, ["zero", "ident", "dup"], ["nan"],
                                ["impulse", "zero", "ident"]])
            s["fx"] = [calls.gen_fx(rng, s, kinds) for _ in range(rng.randint(1, 4))]
            if rng.chance(0.5):
                # reach +inf and -inf entries in the loss matrix: identical and silent channels
                s["fx"] += [dict(calls.gen_fx(rng, s, ["ident"])), dict(calls.gen_fx(rng, s, ["zero"]))]
                s["kw"].pop("clamp_db", None)
                s["kw"].pop("load_diag", None)
                if "filter_length" in s["kw"] and rng.chance(0.5):
                    s["kw"]["filter_length"] = 1
        elif r < 0.6:
            op["bad"] = rng.choice(BAD)
        elif r < 0.8:
            op["faults"] = [gen_fault(rng)]
        s.pop("lay", None)
        ops.append(op)
    return {"ops": ops}


class Stream(io.TextIOBase):
    def __init__(self, log, name, mode="ok"):
        self.log, self.nm, self.mode = log, name, mode

    encoding = "utf-8"
    errors = "strict"

    def _do(self, what):
        self.log.append([self.nm, what])
        if self.mode == "epipe":
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.mode == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device")
        if self.mode == "ebadf":
            raise OSError(errno.EBADF, "Bad file descriptor")
        if self.mode == "eintr":
            raise InterruptedError(errno.EINTR, "Interrupted system call")
        if self.mode == "closed":
            raise ValueError("I/O operation on closed file.")

    def write(self, s):
        self._do("write %r" % (str(s)[:60],))
        return len(s)

    def writable(self):
        return True

    def flush(self):
        if self.mode not in ("ok", "closed"):
            self._do("flush")

    def read(self, *a):
        self._do("read")
        return ""

    readline = read

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    @property
    def closed(self):
        return self.mode == "closed"


AUDIT = None            # list receiving events, or None
_hooked = False
WATCH = ("open", "os.", "socket.", "subprocess.", "shutil.", "tempfile.", "mmap.", "sqlite3.",
         "ctypes.dlopen", "syslog.", "fcntl.", "builtins.input", "urllib.", "http.", "ftplib.",
         "smtplib.", "webbrowser.", "pty.", "glob.")
BENIGN_FRAMES = ("importlib", "warnings")


def _hook(event, args):
    a = AUDIT
    if a is None or not event.startswith(WATCH) or event in ("os.putenv", "os.unsetenv"):
        return
    f = sys._getframe(1)
    inside = False
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith("<frozen importlib") or any(
                fn.endswith("/%s.py" % b) or "/%s/" % b in fn for b in BENIGN_FRAMES):
            return
        if os.sep + "fast_bss_eval" + os.sep in fn and fn.startswith(loader.boot.REPO):
            inside = True
            break
        f = f.f_back
    if inside:
        a.append([event, str(args)[:120]])


class Watch:
    """Standard streams, descriptors and audit events around one call."""

    def __init__(self, modes):
        self.modes = modes
        self.log = []
        self.audit = []

    def __enter__(self):
        global _hooked, AUDIT
        if not _hooked:
            sys.addaudithook(_hook)
            _hooked = True
        self.keep = (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__)
        for f in (sys.__stdout__, sys.__stderr__):
            if f is not None:
                f.flush()
        self.tmp = tempfile.TemporaryFile()
        self.fds = (os.dup(1), os.dup(2))
        os.dup2(self.tmp.fileno(), 1)
        os.dup2(self.tmp.fileno(), 2)
        mk = lambda n, m: None if m == "none" else Stream(self.log, n, m)
        sys.stdin = Stream(self.log, "stdin")
        sys.stdout = mk("stdout", self.modes[0])
        sys.stderr = mk("stderr", self.modes[1])
        AUDIT = self.audit
        return self

    def __exit__(self, *a):
        global AUDIT
        AUDIT = None
        sys.stdin, sys.stdout, sys.stderr = self.keep[:3]
        for f in self.keep[3:]:
            try:
                f.flush()
            except Exception:
                pass
        self.tmp.seek(0)
        raw = self.tmp.read(200)
        os.dup2(self.fds[0], 1)
        os.dup2(self.fds[1], 2)
        os.close(self.fds[0])
        os.close(self.fds[1])
        self.tmp.close()
        if raw:
            self.log.append(["descriptor 1/2", repr(raw[:80])])
        self.log = [x for x in self.log if x[1] != "flush"]


def bad_call(t, pkg, s, inp, kind):
    """A call with wrong arguments; whatever it does, it does it silently."""
    q = {k: v for k, v in s.items()}
    if kind == "ndim":
        inp = calls.Inputs(inp.ref[..., 0, 0], inp.est, inp.bases, inp.be)
    elif kind == "length":
        inp = calls.Inputs(inp.ref, inp.est[..., :-3], inp.bases, inp.be)
    elif kind == "channels":
        inp = calls.Inputs(inp.ref, inp.est[..., :0, :], inp.bases, inp.be)
    elif kind == "empty":
        inp = calls.Inputs(inp.ref[..., :0], inp.est[..., :0], inp.bases, inp.be)
    elif kind == "none":
        inp = calls.Inputs(inp.ref, None, inp.bases, inp.be)
    elif kind == "kwarg":
        q["kw"] = dict(s["kw"], no_such_option=1)
    elif kind == "type":
        inp = calls.Inputs("signal", inp.est, inp.bases, inp.be)
    elif kind == "mixed":
        x = calls.as_np(inp.est)
        e = torch.from_numpy(x.copy()) if s["be"] == "np" else x
        inp = calls.Inputs(inp.ref, e, inp.bases, inp.be)
    q.pop("grad", None)
    return do_call(t, pkg, q, inp)


def run_one(op, modes):
    s = op["call"]
    pkg = calls.fresh_pkg()
    plan = None
    if op.get("faults"):
        plan = fault_plan(dry_names(s), op["faults"])
    sim = core.Sim(faulty=bool(plan))
    inp = calls.build(s)
    with core.locks_patched(), sim.inline() as t:
        with Watch(modes) as w:
            if op.get("bad"):
                o, _ = bad_call(t, pkg, s, inp, op["bad"])
            else:
                o, _ = do_call(t, pkg, s, inp, plan=plan, armed=bool(plan))
        note_outcome(sim, o)
    return o, w, sim


def execute(plan):
    v = None
    faults = {}
    st = {"calls": 0, "raised": 0, "steps": 0, "sim_s": 0.0}
    crc = 0
    nt = False
    tr = None
    for k, op in enumerate(plan["ops"]):
        ambient.reset()
        loader.detach()
        o1, w1, s1 = run_one(op, ["ok", "ok"])
        o2, w2, s2 = run_one(op, op["broken"])
        for m in op["broken"]:
            if m != "ok":
                faults["stream:" + m] = faults.get("stream:" + m, 0) + 1
        for x, n in fault_names(s2).items():
            faults[x] = faults.get(x, 0) + n
        if op.get("bad"):
            faults["bad:" + op["bad"]] = faults.get("bad:" + op["bad"], 0) + 1
        st["calls"] += 2
        st["raised"] += int(not o1.ok)
        for x in (s1, s2):
            st["steps"] += x.step
            st["sim_s"] += x.clock.now - x.clock.start
        crc = crc_of(crc, s1.crc, s2.crc, w1.log, w2.log)
        nt = nt or not o1.ok or op["broken"] != ["ok", "ok"]
        what = calls.describe(op["call"]) + (" bad=%s" % op["bad"] if op.get("bad") else "") + (
            " faults=%s" % op["faults"] if op.get("faults") else "")
        for o, w, m in ((o1, w1, ["ok", "ok"]), (o2, w2, op["broken"])):
            if w.log:
                v = v or vio("output", "the call used a standard stream: %s; streams %s; %s" % (
                    w.log[:3], m, what))
            if w.audit:
                v = v or vio("io", "the call performed I/O: %s; %s" % (w.audit[:3], what))
        if v is None:
            d = hang(o2)
            if d is None and not op.get("faults") and not op.get("bad"):
                d = calls.confirmed_diff(o2, o1, op["call"])
            elif d is None:
                d = calls.diff(o2, o1, op["call"]) if op.get("bad") or not calls.degenerate(op["call"]) else None
            if d:
                v = vio("outcome", "with streams %s the outcome differs: %s; %s" % (op["broken"], what, d))
        if v:
            tr = {"op": k, "log": w1.log[:5] + w2.log[:5], "audit": (w1.audit + w2.audit)[:5]}
            break
    return result(crc, v, dict(st, faults=faults), nt=nt, trace=tr)


def shrink(plan, res):
    ops = plan["ops"]
    k = (res.get("trace") or {}).get("op")
    if len(ops) > 1 and k is not None:
        yield dict(plan, ops=[ops[k]])
        return
    op = ops[0]
    if op["broken"] != ["none", "ok"]:
        yield dict(plan, ops=[dict(op, broken=["none", "ok"])])
    for c in ddmin_list(op["call"].get("fx") or []):
        q = clone(op)
        q["call"]["fx"] = c
        if not c:
            q["call"].pop("fx")
        yield dict(plan, ops=[q])
    for c in calls.simpler(op["call"]):
        yield dict(plan, ops=[dict(op, call=c)])
