"""The simulator: scheduler, clock, locks, interrupts and fault points.

Seams (all outside the package under test, nothing in /repo is changed):

* thread scheduling  real threads that are parked and released one at a time;
                     every line (or every byte-code instruction) executed in
                     the package is a yield point, delivered by sys.monitoring
                     on the package's own code objects
* failing kernels    an exception raised *as if* by the numpy/scipy/torch call
                     (or array operator) that was about to run
* interrupts         KeyboardInterrupt at the places CPython itself would
                     deliver one, and re-entrant calls (signal handlers,
                     finalizers) in the middle of a call
* clock and sleep    time.* read a virtual clock driven by the step counter
* locks              threading.Lock/RLock/Semaphore/Event created while the
                     package is loaded or runs belong to the scheduler
"""
import _thread
import dis
import opcode
import re
import struct
import sys
import threading
import time as _time
import weakref
import zlib

from . import loader

MON = sys.monitoring
EV = MON.events
TOOL = 3

ACTIVE = None            # the Sim receiving events, or None

REAL_MONOTONIC = _time.monotonic
_REAL_TIME = {}
for _n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
           "perf_counter_ns", "process_time", "process_time_ns", "thread_time",
           "thread_time_ns", "sleep"):
    _REAL_TIME[_n] = getattr(_time, _n)
_get_ident = _thread.get_ident


class SimAbort(BaseException):
    """Unwinds a simulated thread; never part of the system under test."""


class SimBudget(SimAbort):
    pass


class SimDeadlock(SimAbort):
    pass


# --------------------------------------------------------------------------
# virtual clock

class VClock:
    TICK = 1e-4

    def __init__(self, start=1.7e9):
        self.now = start
        self.start = start
        self.reads = 0
        self.sleeps = 0
        self.skew = 0.0
        self.tick = self.TICK

    def advance(self, dt):
        self.now += dt

    def jump(self, dt):
        self.skew += dt

    def read(self):
        self.reads += 1
        return self.now + self.skew

    def read_mono(self):
        self.reads += 1
        return self.now

    def sleep(self, dt):
        self.sleeps += 1
        self.now += max(0.0, float(dt))
        s = ACTIVE
        if s is not None:
            t = s.by_ident.get(_get_ident())
            if t is not None:
                s.boundary(t)

    def install(self):
        f, m = self.read, self.read_mono
        _time.time = f
        _time.time_ns = lambda: int(f() * 1e9)
        for n in ("monotonic", "perf_counter", "process_time", "thread_time"):
            setattr(_time, n, m)
            setattr(_time, n + "_ns", lambda: int(m() * 1e9))
        _time.sleep = self.sleep

    @staticmethod
    def uninstall():
        for n, f in _REAL_TIME.items():
            setattr(_time, n, f)


# --------------------------------------------------------------------------
# locks owned by the scheduler

ALL_LOCKS = weakref.WeakSet()


def _foreign_wait(cond, timeout):
    """A thread the scheduler does not own waits in real time."""
    lim = 10.0 if timeout is None or timeout < 0 else float(timeout)
    t0 = REAL_MONOTONIC()
    while not cond():
        if REAL_MONOTONIC() - t0 > lim:
            if timeout is None or timeout < 0:
                raise SimDeadlock("lock is held and nobody can release it")
            return
        _REAL_TIME["sleep"](0.0005)


def locks_held():
    return [l for l in list(ALL_LOCKS) if l._count > 0]


class SimLock:
    """Stands in for threading.Lock while the package is loaded and runs."""
    _re = False

    def __init__(self, *a, **k):
        self._owner = None
        self._count = 0
        ALL_LOCKS.add(self)

    def _me(self):
        return _get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = ACTIVE
        until = s.clock.now + timeout if s is not None and timeout is not None and timeout >= 0 \
            else None
        while True:
            if self._count == 0 or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            if s is None or me not in s.by_ident:
                _foreign_wait(lambda: self._count == 0, timeout)
                if timeout is not None and timeout >= 0 and self._count:
                    return False
                continue
            if not s.block(me, self, until):
                return False

    def release(self):
        if self._count == 0:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = ACTIVE
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._count > 0 and self._owner == self._me()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _release_save(self):
        c, self._count = self._count, 0
        o, self._owner = self._owner, None
        if ACTIVE is not None:
            ACTIVE.unblock(self)
        return c, o

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


class SimRLock(SimLock):
    _re = True


class SimSemaphore:
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        s = ACTIVE
        until = s.clock.now + timeout if s is not None and timeout is not None else None
        while self._v <= 0:
            if not blocking:
                return False
            if s is None or _get_ident() not in s.by_ident:
                _foreign_wait(lambda: self._v > 0, timeout)
                if timeout is not None and self._v <= 0:
                    return False
                continue
            if not s.block(_get_ident(), self, until):
                return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n
        if ACTIVE is not None:
            ACTIVE.unblock(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimEvent:
    def __init__(self):
        self._f = False

    def is_set(self):
        return self._f

    def set(self):
        self._f = True
        if ACTIVE is not None:
            ACTIVE.unblock(self)

    def clear(self):
        self._f = False

    def _at_fork_reinit(self):
        pass

    def wait(self, timeout=None):
        s = ACTIVE
        until = s.clock.now + timeout if s is not None and timeout is not None else None
        while not self._f:
            if s is None or _get_ident() not in s.by_ident:
                _foreign_wait(lambda: self._f, timeout)
                if timeout is not None:
                    return self._f
                continue
            if not s.block(_get_ident(), self, until):
                return self._f
        return True


_LOCK_PATCH = {"Lock": SimLock, "RLock": SimRLock, "Semaphore": SimSemaphore,
               "BoundedSemaphore": SimSemaphore, "Event": SimEvent,
               "_allocate_lock": SimLock}
_REAL_LOCKS = {n: getattr(threading, n) for n in _LOCK_PATCH}


class locks_patched:
    """Locks created inside this block belong to the scheduler."""

    def __enter__(self):
        for n, c in _LOCK_PATCH.items():
            setattr(threading, n, c)

    def __exit__(self, *a):
        for n, c in _REAL_LOCKS.items():
            setattr(threading, n, c)


# --------------------------------------------------------------------------
# monitoring plumbing

_installed = False
_mask = 0
_BINOPS = {opcode.opmap["BINARY_OP"], opcode.opmap["UNARY_NEGATIVE"],
           opcode.opmap["BINARY_SUBSCR"]}
_INPLACE_FROM = 13
_binop_locals = {}       # code -> {offset: (name of the point, locals feeding the op)}
_code_tag = {}


def _analyse(code):
    out = {}
    prev = []
    for ins in dis.get_instructions(code):
        if ins.opcode in _BINOPS or ins.opname in ("BINARY_OP", "UNARY_NEGATIVE",
                                                   "BINARY_SUBSCR"):
            if not (ins.opname == "BINARY_OP" and ins.arg is not None
                    and ins.arg >= _INPLACE_FROM):
                names = [p.argval for p in prev[-2:] if p.opname.startswith("LOAD_FAST")]
                flat = []
                for n in names:
                    flat.extend(n if isinstance(n, tuple) else (n,))
                if flat:
                    out[ins.offset] = ("operator", tuple(flat))
        if (ins.opname == "BINARY_OP" and ins.arg is not None and ins.arg >= _INPLACE_FROM
                or ins.opname in ("STORE_SUBSCR", "STORE_SLICE")):
            # an update in place: whatever arrays the statement has named so far
            line = ins.positions.lineno if ins.positions else None
            flat = []
            for p in prev:
                if p.opname.startswith("LOAD_FAST") and p.positions and p.positions.lineno == line:
                    flat.extend(p.argval if isinstance(p.argval, tuple) else (p.argval,))
            if flat:
                out[ins.offset] = ("store" if ins.opname[0] == "S" else "inplace",
                                   tuple(dict.fromkeys(flat)))
        prev.append(ins)
    return out


def _new_code(code):
    _code_tag[code] = zlib.crc32(
        ("%s:%s" % (code.co_qualname, code.co_filename.rsplit("fast_bss_eval", 1)[-1])).encode())
    _binop_locals[code] = _analyse(code)
    if _mask:
        MON.set_local_events(TOOL, code, _mask)


def set_mask(mask):
    global _mask
    if mask == _mask:
        return
    _mask = mask
    for c in loader.PKG_CODES:
        MON.set_local_events(TOOL, c, mask)


def _cb_line(code, line):
    s = ACTIVE
    if s is None:
        return
    t = s.by_ident.get(_get_ident())
    if t is None:
        s.foreign += 1
        return
    s.on_step(t, code, line, not s.fine)


def _cb_jump(code, off, dest):
    s = ACTIVE
    if s is None:
        return
    t = s.by_ident.get(_get_ident())
    if t is not None:
        t.steps += 1
        if t.steps > t.budget:
            t.over = True
            raise SimBudget("step budget exhausted")


def _cb_instr(code, off):
    s = ACTIVE
    if s is None:
        return
    t = s.by_ident.get(_get_ident())
    if t is None:
        return
    if s.fine:
        s.on_step(t, code, -off - 1, True)
    if s.faulty and t.armed:
        names = _binop_locals[code].get(off)
        if names is not None:
            loc = sys._getframe(1).f_locals
            for n in names[1]:
                if is_arrayish(loc.get(n)):
                    s.fault_point(t, names[0], None, code, off)
                    break


def _cb_call(code, off, fn, arg0):
    s = ACTIVE
    if s is None or not s.faulty:
        return
    t = s.by_ident.get(_get_ident())
    if t is None or not t.armed:
        return
    name = compute_call(fn, arg0)
    if name is not None:
        s.fault_point(t, name, fn, code, off)


def _cb_start(code, off):
    s = ACTIVE
    if s is None:
        return
    t = s.by_ident.get(_get_ident())
    if t is None:
        return
    if s.faulty and t.armed and not code.co_name.startswith("__"):
        if not (code.co_flags & 0x20):          # generators: entered via next()
            s.fault_point(t, "enter:" + code.co_name, None, code, off)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    MON.use_tool_id(TOOL, "fbe-sim")
    MON.register_callback(TOOL, EV.LINE, _cb_line)
    MON.register_callback(TOOL, EV.JUMP, _cb_jump)
    MON.register_callback(TOOL, EV.INSTRUCTION, _cb_instr)
    MON.register_callback(TOOL, EV.CALL, _cb_call)
    MON.register_callback(TOOL, EV.PY_START, _cb_start)
    loader.on_new_code(_new_code)


MASK_STEP = EV.LINE | EV.JUMP
MASK_FINE = EV.LINE | EV.JUMP | EV.INSTRUCTION
MASK_FAULT = EV.LINE | EV.JUMP | EV.INSTRUCTION | EV.CALL | EV.PY_START


# --------------------------------------------------------------------------
# which calls are computational kernels that can fail

_array_types = ()


def _importing():
    """True inside an import: parking there would hold a real import lock."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


def set_array_types(types):
    global _array_types
    _array_types = tuple(types)


def is_arrayish(x):
    return isinstance(x, _array_types)


_DENY = re.compile(
    r"^(__.*__|acquire|release|set_.*|seterr.*|geterr.*|get_.*|manual_seed|no_grad|"
    r"enable_grad|inference_mode|errstate|is_.*|_set_.*|_get_.*|requires_grad_|"
    r"size|dim|numel|stride|data_ptr|storage_offset|seed|setstate|getstate|"
    r"simplefilter|filterwarnings|resetwarnings|catch_warnings|close|flush)$")
_LINALG = re.compile(r"(solve|inv|cholesky|lstsq|pinv|eig|svd|qr|lu|ldl|inverse|det)", re.I)


def compute_call(fn, arg0):
    """Name of the kernel if `fn` does array work (and so may fail), else None."""
    if isinstance(fn, type):
        return None
    name = getattr(fn, "__name__", None)
    if name is None or _DENY.match(name):
        return None
    mod = getattr(fn, "__module__", None) or ""
    if mod.startswith(loader.PKG):
        return None
    code = getattr(fn, "__code__", None)
    if code is not None and code in _code_tag:
        return None
    if type(fn).__name__ == "ufunc":
        return name
    top = mod.split(".", 1)[0]
    if top in ("numpy", "scipy", "torch", "torch_complex"):
        return name
    slf = getattr(fn, "__self__", None)
    if slf is not None and (is_arrayish(slf) or "torch" in getattr(
            slf, "__name__", type(slf).__module__ or "")
            or "_VariableFunctions" in repr(type(slf)) + repr(slf)[:80]):
        return name
    if top in ("builtins", "") and is_arrayish(arg0) and name not in ("isinstance", "len",
                                                                    "getattr", "hasattr",
                                                                    "id", "type", "print"):
        return name
    return None


def make_exc(kind, name, backend):
    """The exception a failing kernel of this backend really raises."""
    import numpy as np
    e = None
    if kind == "interrupt":
        e = KeyboardInterrupt("simulated")
    elif kind == "linalg":
        if backend == "pt":
            import torch
            e = torch.linalg.LinAlgError(
                "linalg.solve: The solver failed because the input matrix is singular.")
        else:
            e = np.linalg.LinAlgError("Singular matrix")
    elif kind == "infeasible":
        e = ValueError("cost matrix is infeasible")
    elif kind == "fp":
        e = FloatingPointError("divide by zero encountered in divide")
    elif kind == "kernel":
        e = RuntimeError("simulated kernel failure: unable to perform operation")
    elif kind == "recursion":
        e = RecursionError("maximum recursion depth exceeded")
    elif kind == "notimpl":
        e = NotImplementedError('"%s" not implemented for this dtype' % name)
    else:
        if backend == "pt":
            e = RuntimeError("[enforce fail at alloc_cpu.cpp:121] . DefaultCPUAllocator: "
                             "can't allocate memory: you tried to allocate 123456 bytes.")
        else:
            e = MemoryError("Unable to allocate 12.3 MiB for an array")
    e.sim_injected = True
    return e


def kinds_for(name):
    """Fault kinds that make sense at a point called `name`, with weights."""
    if name.startswith("enter:"):
        return [("interrupt", 2), ("recursion", 1)]
    if name == "linear_sum_assignment":
        return [("infeasible", 3), ("oom", 1), ("interrupt", 1), ("kernel", 1)]
    if _LINALG.search(name):
        return [("linalg", 4), ("oom", 1), ("kernel", 1), ("interrupt", 1)]
    return [("oom", 4), ("kernel", 2), ("interrupt", 2), ("notimpl", 1), ("fp", 1)]


# --------------------------------------------------------------------------

class Task:
    __slots__ = ("tid", "gate", "state", "steps", "budget", "over", "armed", "points",
                 "plan", "sticky", "fired", "names", "backend", "blocked_on", "fn",
                 "irqs", "in_irq", "result", "opsteps", "until", "deadline", "timed_out")

    def __init__(self, tid, fn=None):
        self.tid = tid
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = "ready"
        self.steps = 0
        self.opsteps = 0
        self.budget = 10 ** 9
        self.over = False
        self.armed = False
        self.points = 0
        self.plan = {}
        self.sticky = None
        self.fired = []
        self.names = None
        self.backend = "np"
        self.blocked_on = None
        self.deadline = None
        self.timed_out = False
        self.irqs = {}
        self.in_irq = 0
        self.result = None


class Sim:
    """One simulated execution."""

    def __init__(self, policy=None, fine=False, faulty=False, clock=None, stall_s=60.0):
        self.lag = getattr(policy, "lag", None)
        self.lags = 0
        self.policy = policy
        self.fine = fine
        self.site = None
        self.faulty = faulty
        self.clock = clock or VClock()
        self.tasks = []
        self.by_ident = {}
        self.step = 0
        self.crc = 0
        self.decisions = []      # [step, tid] where the default was not taken
        self.switches = 0
        self.current = None
        self.observers = []      # called as f(sim, task) at every step
        self.foreign = 0
        self.deadlocked = False
        self.aborting = False
        self.stalled = False
        self.stall_s = stall_s
        self.sites = set()       # (code, line) pairs where a switch happened
        self.main_done = _thread.allocate_lock()
        self.main_done.acquire()
        self.threaded = False
        self.grace = 0

    # ---- events ----------------------------------------------------------
    def on_step(self, t, code, where, may_yield):
        self.step += 1
        t.steps += 1
        t.opsteps += 1
        self.clock.now += self.clock.tick
        tag = _code_tag[code]
        self.crc = zlib.crc32(struct.pack("<IiI", t.tid, where, tag), self.crc)
        if self.aborting:
            raise SimAbort("run aborted")
        if t.steps > t.budget:
            t.over = True
            raise SimBudget("step budget exhausted")
        for f in self.observers:
            f(self, t)
        if t.irqs and not t.in_irq:
            h = t.irqs.pop(t.opsteps, None)
            if h is not None:
                t.in_irq += 1
                try:
                    h(t)
                finally:
                    t.in_irq -= 1
        if may_yield and self.threaded and self.policy is not None and not t.in_irq:
            if code.co_name == "<module>":
                return
            self.site = (tag, where)
            to = self.policy.at_step(self, t)
            if to is not None and to is not t and to.state == "ready" and not _importing():
                self.sites.add((tag, where))
                self.decisions.append([self.step, to.tid])
                self._switch(t, to)

    def note(self, *parts):
        """Fold an observable fact into the event log digest."""
        self.crc = zlib.crc32(repr(parts).encode(), self.crc)

    def boundary(self, t):
        """Between two operations of a task: also a place to switch."""
        if not self.threaded or self.policy is None:
            return
        self.step += 1
        to = self.policy.at_step(self, t, boundary=True)
        if to is not None and to is not t and to.state == "ready":
            self.decisions.append([self.step, to.tid])
            self._switch(t, to)

    def fault_point(self, t, name, fn, code, off):
        i = t.points
        t.points += 1
        if t.names is not None:
            t.names.append(name)
        kind = t.plan.get(i)
        if kind is None and t.sticky is not None and t.sticky[0] <= i and \
                t.sticky[1] == name and t.fired:
            kind = t.sticky[2]
        if kind is None:
            return
        t.fired.append([i, name, kind])
        self.note("fault", t.tid, i, name, kind)
        raise make_exc(kind, name, t.backend)

    # ---- scheduling ------------------------------------------------------
    def ready(self, but=None):
        self._expire()
        return [x for x in self.tasks if x.state == "ready" and x is not but]

    def _switch(self, me, to):
        self.switches += 1
        if self.lag:
            # the processor was away for a while
            k = zlib.crc32(struct.pack("<II", self.lag & 0xFFFFFFFF, self.step & 0xFFFFFFFF))
            if k % 4 == 0:
                self.clock.now += 10.0 ** ((k >> 4) % 9 - 3)
                self.lags += 1
        if me.state == "running":
            me.state = "ready"
        to.state = "running"
        self.current = to
        to.gate.release()
        if me.state != "done":
            me.gate.acquire()
            if self.aborting:
                raise SimAbort("run aborted")

    def _pick_next(self, me):
        r = self.ready()
        if not r:
            ends = [x.deadline for x in self.tasks
                    if x.state == "blocked" and x.deadline is not None]
            if not ends:
                return None
            self.clock.now = max(self.clock.now, min(ends))
            r = self.ready()
        default = r[0]
        to = self.policy.at_stop(self, me, r) if self.policy is not None else None
        if to is None or to.state != "ready":
            to = default
        if to is not default:
            self.decisions.append([self.step, to.tid])
        return to

    def block(self, ident, lock, until=None):
        """The running task waits for `lock`, at most until the virtual time `until`.
        False: that time has come."""
        me = self.by_ident.get(ident)
        if me is None or not self.threaded:
            if self._foreign_grace():
                return True
            if until is None:
                self.deadlocked = True
                raise SimDeadlock("blocked for ever on a lock")
            self.clock.now = max(self.clock.now, until)
            return False
        me.state = "blocked"
        me.blocked_on = lock
        me.deadline = until
        self.step += 1
        to = self._pick_next(me)
        if to is me:
            me.state = "running"
            me.timed_out = False
            return False
        if to is None:
            me.state = "running"
            me.blocked_on = me.deadline = None
            if self._foreign_grace():
                return True
            self.deadlocked = True
            self.note("deadlock", me.tid)
            raise SimDeadlock("every thread is blocked on a lock")
        self._switch(me, to)
        timed_out, me.timed_out = me.timed_out, False
        return not timed_out

    def _expire(self):
        """Waits with a time limit end when the virtual clock gets there."""
        for x in self.tasks:
            if x.state == "blocked" and x.deadline is not None and self.clock.now >= x.deadline:
                x.state = "ready"
                x.blocked_on = x.deadline = None
                x.timed_out = True

    def _foreign_grace(self):
        """Threads the package started itself are not ours to schedule: give
        them real time (at most 10 s in all) before calling it a deadlock."""
        if self.grace > 20000:
            return False
        for th in threading.enumerate():
            if th is not threading.main_thread() and not isinstance(th, threading._DummyThread):
                self.grace += 1
                _REAL_TIME["sleep"](0.0005)
                return True
        return False

    def unblock(self, lock):
        for x in self.tasks:
            if x.state == "blocked" and x.blocked_on is lock:
                x.state = "ready"
                x.blocked_on = x.deadline = None

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.gate.acquire()
        self.by_ident[_get_ident()] = t
        try:
            if not self.aborting:
                t.fn(t)
        except SimAbort:
            pass
        except BaseException as e:       # a harness error, reported as such
            t.result = ("harness", repr(e))
            import traceback
            t.result = ("harness", traceback.format_exc())
        finally:
            self.by_ident.pop(_get_ident(), None)
            t.state = "done"
            self.step += 1
            nxt = self._pick_next(t)
            if nxt is None:
                # tasks still blocked: they can never run
                left = [x for x in self.tasks if x.state == "blocked"]
                if left:
                    self.deadlocked = True
                    self.aborting = True
                    left[0].state = "running"
                    left[0].gate.release()
                else:
                    self.main_done.release()
            else:
                nxt.state = "running"
                self.current = nxt
                nxt.gate.release()

    def run_threads(self):
        """Run all spawned tasks to completion under the policy."""
        global ACTIVE
        self.threaded = True
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        ACTIVE = self
        set_mask(MASK_FAULT if self.faulty else (MASK_FINE if self.fine else MASK_STEP))
        self.clock.install()
        try:
            first = self._pick_next(None)
            first.state = "running"
            self.current = first
            first.gate.release()
            last, since = -1, REAL_MONOTONIC()
            while not self.main_done.acquire(timeout=0.5):
                if self.step != last:
                    last, since = self.step, REAL_MONOTONIC()
                elif REAL_MONOTONIC() - since > self.stall_s:
                    self.stalled = True
                    break
        finally:
            ACTIVE = None
            self.clock.uninstall()
            set_mask(0)
        for t in self.tasks:
            if t.result and t.result[0] == "harness":
                raise RuntimeError("harness error in a simulated thread:\n" + t.result[1])
        return self

    def inline(self):
        """Context manager: the calling thread is task 0 of a sequential run."""
        return _Inline(self)


class _Inline:
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global ACTIVE
        s = self.sim
        if not s.tasks:
            t = Task(0)
            t.state = "running"
            s.tasks.append(t)
        t = s.tasks[0]
        s.current = t
        s.by_ident[_get_ident()] = t
        ACTIVE = s
        set_mask(MASK_FAULT if s.faulty else (MASK_FINE if s.fine else MASK_STEP))
        s.clock.install()
        return t

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None
        self.sim.clock.uninstall()
        set_mask(0)
        self.sim.by_ident.pop(_get_ident(), None)
        return False


# --------------------------------------------------------------------------
# scheduling policies

class Explicit:
    """Replays a recorded list of [step, tid] decisions."""

    def __init__(self, decisions):
        self.d = {int(s): int(t) for s, t in decisions}

    def at_step(self, sim, t, boundary=False):
        tid = self.d.get(sim.step)
        return None if tid is None or tid >= len(sim.tasks) else sim.tasks[tid]

    def at_stop(self, sim, t, ready):
        tid = self.d.get(sim.step)
        return None if tid is None or tid >= len(sim.tasks) else sim.tasks[tid]


class RandomPolicy:
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def at_step(self, sim, t, boundary=False):
        if self.rng.random() >= self.p:
            return None
        r = sim.ready(t)
        return self.rng.choice(r) if r else None

    def at_stop(self, sim, t, ready):
        return self.rng.choice(ready)


class BurstPolicy:
    """Switch rarely; the task switched to runs to the end of its current call."""

    def __init__(self, rng, p):
        self.rng, self.p, self.hold = rng, p, None

    def at_step(self, sim, t, boundary=False):
        if self.hold is not None:
            if self.hold is t and not boundary:
                return None
            self.hold = None
            r = sim.ready(t)
            return self.rng.choice(r) if r else None
        if self.rng.random() >= self.p:
            return None
        r = sim.ready(t)
        if not r:
            return None
        self.hold = self.rng.choice(r)
        return self.hold

    def at_stop(self, sim, t, ready):
        self.hold = None
        return self.rng.choice(ready)


class PCTPolicy:
    """Probabilistic concurrency testing: priorities plus d change points."""

    def __init__(self, rng, n, d, horizon):
        self.rng = rng
        self.prio = {i: p for i, p in enumerate(rng.sample(range(10, 10 + n), n))}
        self.change = set(rng.randrange(1, max(2, horizon)) for _ in range(d))
        self.low = 0

    def _best(self, ready):
        return max(ready, key=lambda x: self.prio[x.tid])

    def at_step(self, sim, t, boundary=False):
        if sim.step in self.change:
            self.low -= 1
            self.prio[t.tid] = self.low
        r = sim.ready(t)
        if not r:
            return None
        b = self._best(r)
        return b if self.prio[b.tid] > self.prio[t.tid] else None

    def at_stop(self, sim, t, ready):
        return self._best(ready)


class LockstepPolicy:
    """Threads advance in turn, `k` steps each: every call is inside every other
    for its whole length, so entries and exits interleave instead of nesting."""

    def __init__(self, rng, n, k, jitter):
        self.rng, self.k, self.jitter = rng, k, jitter
        self.order = rng.sample(range(n), n)
        self.left = self._quantum()

    def _quantum(self):
        return self.k + (self.rng.randrange(self.jitter + 1) if self.jitter else 0)

    def _next(self, sim, t, ready):
        n = len(self.order)
        at = self.order.index(t.tid) if t is not None else -1
        ok = {x.tid for x in ready}
        for d in range(1, n + 1):
            c = self.order[(at + d) % n]
            if c in ok:
                return sim.tasks[c]
        return None

    def at_step(self, sim, t, boundary=False):
        self.left -= 1
        if self.left > 0:
            return None
        self.left = self._quantum()
        return self._next(sim, t, sim.ready(t))

    def at_stop(self, sim, t, ready):
        self.left = self._quantum()
        return self._next(sim, t, ready) or ready[0]


class StallPolicy:
    """One thread stands still at some step while another makes several whole
    calls, then goes on: what was true before the pause need not be true after."""

    def __init__(self, rng, n, first, again, calls):
        # odds of a pause at a place this call has not been at yet / has been at
        self.rng, self.first, self.again, self.calls = rng, first, again, calls
        self.seen = set()
        self.hold, self.todo = None, 0

    def at_step(self, sim, t, boundary=False):
        if self.hold is not None:
            if self.hold is not t:
                self.hold = None
            elif not boundary:
                return None
            else:
                self.todo -= 1
                if self.todo > 0:
                    return None
                self.hold = None
                r = [x for x in sim.ready(t) if x.tid == 0]
                return r[0] if r else None
        if t.tid != 0:
            r = [x for x in sim.ready(t) if x.tid == 0]
            return r[0] if r and boundary else None
        if boundary:
            self.seen = set()
            return None
        p = self.again
        if sim.site not in self.seen:
            self.seen.add(sim.site)
            p = self.first
        if self.rng.random() >= p:
            return None
        r = sim.ready(t)
        if not r:
            return None
        self.hold = self.rng.choice(r)
        self.todo = 1 + self.rng.randrange(self.calls)
        return self.hold

    def at_stop(self, sim, t, ready):
        self.hold = None
        first = [x for x in ready if x.tid == 0]
        return first[0] if first else self.rng.choice(ready)


def _policy(spec, n_tasks):
    from .rng import stream
    if spec["mode"] == "explicit":
        return Explicit(spec["decisions"])
    rng = stream("sched", spec["seed"])
    if spec["mode"] == "random":
        return RandomPolicy(rng, spec["p"])
    if spec["mode"] == "burst":
        return BurstPolicy(rng, spec["p"])
    if spec["mode"] == "pct":
        return PCTPolicy(rng, n_tasks, spec["d"], spec["horizon"])
    if spec["mode"] == "lockstep":
        return LockstepPolicy(rng, n_tasks, spec["k"], spec["jitter"])
    if spec["mode"] == "stall":
        return StallPolicy(rng, n_tasks, spec["first"], spec["again"], spec["calls"])
    raise ValueError(spec)


def make_policy(spec, n_tasks):
    p = _policy(spec, n_tasks)
    p.lag = spec.get("lag")             # time that passes while a thread is switched out
    return p
