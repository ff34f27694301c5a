"""Process-wide and thread-wide settings a call must not disturb.

snapshot()  -> {name: value}       diff(a, b) -> [changed names]
restore(s)  puts the settings of a snapshot back (best effort).
"""
import atexit
import builtins
import contextvars
import copyreg
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import functools
import itertools
import math
import numbers
import operator
import os
import random
import resource
import signal
import socket
import struct
import sys
import tempfile
import threading
import tracemalloc
import warnings

import numpy as np
import scipy.fft
import scipy.linalg
import scipy.optimize
import scipy.special
import torch


def _h(b):
    return hashlib.blake2b(b, digest_size=8).hexdigest()


def _np_rng():
    st = np.random.get_state()
    return _h(st[1].tobytes() + repr(st[2:]).encode())


def _py_rng():
    return _h(repr(random.getstate()).encode())


def _pt_rng():
    return _h(torch.get_rng_state().numpy().tobytes())


_SIGS = [s for s in signal.valid_signals()]
_NAMESPACES = [("np", np), ("np.fft", np.fft), ("np.linalg", np.linalg),
               ("scipy.fft", scipy.fft), ("scipy.linalg", scipy.linalg),
               ("scipy.optimize", scipy.optimize), ("math", math),
               ("torch", torch), ("torch.fft", torch.fft), ("torch.linalg", torch.linalg),
               ("torch.nn.functional", torch.nn.functional), ("warnings", warnings),
               ("builtins", builtins), ("torch.Tensor", torch.Tensor), ("np.random", np.random),
               ("torch.autograd", torch.autograd), ("numbers", numbers), ("operator", operator),
               ("itertools", itertools), ("functools", functools)]
_ns_base = None
_MODS_WATCHED = ("numpy", "scipy", "torch")
_NS_SKIP = {"builtins._", "warnings.filters", "warnings._filters_version",
            "warnings.onceregistry"}


def baseline():
    """Remember library attributes, to notice monkey-patching."""
    global _ns_base
    _ns_base = [(n, m, dict(vars(m))) for n, m in _NAMESPACES]
    _mods_base.clear()
    _mods_base.update((k, v) for k, v in sys.modules.items()
                      if k.split(".")[0] in _MODS_WATCHED or "." not in k and not k.startswith("fast_bss"))


def _patched():
    out = []
    for n, m, was in _ns_base or ():
        now = vars(m)
        for k, v in was.items():
            w = now.get(k, None)
            if w is not v and n + "." + k not in _NS_SKIP:
                if isinstance(v, (int, float, str, tuple, bool)) and v == w:
                    continue
                out.append(n + "." + k)
    return tuple(out)


def _fp_mode():
    """Rounding direction and flush-to-zero, observed by arithmetic."""
    a = np.float64(1.0) / np.float64(3.0)
    b = np.float64(-1.0) / np.float64(3.0)
    d = np.array([5e-324, 1e-310]) * 1.0
    return struct.pack("<dd", a, b).hex() + d.tobytes().hex()


def _uarray_state():
    try:
        return repr(scipy._lib._uarray.get_state()._pickle())
    except AttributeError:
        return ""


def _decimal():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
            tuple(sorted(k.__name__ for k, v in c.traps.items() if v)))


def _saved_hooks():
    ag = torch._C._autograd
    try:
        return (ag._saved_tensors_hooks_is_enabled(),
                repr(ag._top_saved_tensors_default_hooks(False)))
    except (AttributeError, TypeError):
        return ()


def _np_promotion():
    f = getattr(np, "_get_promotion_state", None)
    return f() if f else ""


_mods_base = {}


def _modules_replaced():
    """Entries of sys.modules that were dropped or replaced (new ones are lazy imports)."""
    m = sys.modules
    return tuple(k for k, v in _mods_base.items() if m.get(k) is not v)


def thread_snapshot():
    """Settings that belong to the calling thread."""
    return {
        "torch.grad_mode": torch.is_grad_enabled(),
        "torch.inference_mode": torch.is_inference_mode_enabled(),
        "torch.autocast": (torch.is_autocast_enabled("cpu"),
                           torch.get_autocast_dtype("cpu"),
                           torch.is_autocast_cache_enabled()),
        "torch.anomaly": (torch.is_anomaly_enabled(), torch.is_anomaly_check_nan_enabled()),
        "torch.multithreaded_grad": torch._C._is_multithreading_enabled(),
        "torch.default_device": str(torch.get_default_device()),
        "numpy.errstate": tuple(sorted(np.geterr().items())),
        "numpy.errcall": id(np.geterrcall()),
        "numpy.bufsize": np.getbufsize(),
        "scipy.fft.workers": scipy.fft.get_workers(),
        "decimal.context": _decimal(),
        "scipy.fft.backend": _uarray_state(),
        "torch.saved_tensor_hooks": _saved_hooks(),
        "numpy.promotion": _np_promotion(),
        "sys.trace": (id(sys.gettrace()), id(sys.getprofile())),
        "fp.mode": _fp_mode(),
        "torch.modes": tuple(f() for f in _TORCH_MODES),
        "contextvars": len(contextvars.copy_context()),
        "scipy.special.errstate": tuple(sorted(scipy.special.geterr().items())),
    }


_TORCH_MODES = [f for f in (
    getattr(torch._C, n, None) for n in ("_len_torch_function_stack", "_len_torch_dispatch_stack",
                                         "_is_torch_function_enabled", "_is_flush_denormal"))
    if callable(f)]


def _po(d):
    return tuple(sorted((k, repr(v)) for k, v in d.items()))


def snapshot():
    s = thread_snapshot()
    um = os.umask(0o022)
    os.umask(um)
    s.update({
        "torch.default_dtype": torch.get_default_dtype(),
        "torch.num_threads": torch.get_num_threads(),
        "torch.deterministic": (torch.are_deterministic_algorithms_enabled(),
                                torch.is_deterministic_algorithms_warn_only_enabled()),
        "torch.fill_uninitialized": torch.utils.deterministic.fill_uninitialized_memory,
        "torch.matmul_precision": torch.get_float32_matmul_precision(),
        "torch.warn_always": torch.is_warn_always_enabled(),
        "torch.backends": (torch.backends.mkldnn.enabled, torch.backends.cudnn.enabled,
                           torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic,
                           torch.backends.opt_einsum.enabled,
                           torch.backends.opt_einsum.strategy),
        "torch.printoptions": repr(torch._tensor_str.PRINT_OPTS),
        "torch.rng": _pt_rng(),
        "numpy.rng": _np_rng(),
        "random.rng": _py_rng(),
        "numpy.printoptions": _po(np.get_printoptions()),
        "warnings.filters": tuple(repr(f) for f in warnings.filters),
        "warnings.showwarning": (id(warnings.showwarning), id(warnings.formatwarning)),
        "library.attributes": _patched(),
        "os.environ": _h(repr(sorted(os.environ.items())).encode()),
        "os.cwd": os.getcwd(),
        "os.umask": um,
        "os.affinity": tuple(sorted(os.sched_getaffinity(0))),
        "os.nice": os.getpriority(os.PRIO_PROCESS, 0),
        "os.fds": len(os.listdir("/proc/self/fd")),
        "sys.path": tuple(sys.path),
        "sys.modules": _modules_replaced(),
        "sys.path_hooks": tuple(id(x) for x in sys.path_hooks),
        "sys.bytecode": sys.dont_write_bytecode,
        "sys.asyncgen_hooks": (repr(sys.get_asyncgen_hooks()),
                               sys.get_coroutine_origin_tracking_depth()),
        "torch.interop_threads": torch.get_num_interop_threads(),
        "torch.linalg_backend": str(torch._C._get_linalg_preferred_backend()),
        "copyreg": len(copyreg.dispatch_table),
        "tempfile": tempfile.tempdir,
        "sys.meta_path": tuple(id(x) for x in sys.meta_path),
        "sys.recursionlimit": sys.getrecursionlimit(),
        "sys.switchinterval": sys.getswitchinterval(),
        "sys.hooks": (id(sys.excepthook), id(sys.unraisablehook), id(sys.displayhook),
                      id(threading.excepthook)),
        "sys.streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "sys.int_max_str_digits": sys.get_int_max_str_digits(),
        "gc.state": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "gc.hooks": len(gc.callbacks),
        "atexit": atexit._ncallbacks(),
        "tracemalloc": tracemalloc.is_tracing(),
        "socket.timeout": socket.getdefaulttimeout(),
        "thread.stack_size": threading.stack_size(),
        "thread.hooks": (id(threading.gettrace()), id(threading.getprofile())),
        "torch.tf32": (torch.backends.cuda.matmul.allow_tf32, torch.backends.cudnn.allow_tf32),
        "signal.handlers": tuple(str(signal.getsignal(x)) for x in _SIGS),
        "signal.timer": signal.getitimer(signal.ITIMER_REAL)[1] > 0,
        "signal.mask": tuple(sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "faulthandler": faulthandler.is_enabled(),
        "resource": tuple(resource.getrlimit(x) for x in
                          (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK,
                           resource.RLIMIT_AS)),
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled,
                    logging.root.manager.disable, logging.raiseExceptions),
        "threads": sum(1 for t in threading.enumerate()
                       if not isinstance(t, threading._DummyThread)),
    })
    return s


def diff(a, b):
    out = []
    for k in a:
        if k in b and a[k] != b[k]:
            x, y = str(a[k]), str(b[k])
            out.append("%s (%s -> %s)" % (k, x[:80], y[:80]))
    return out


_start = {}


def capture_restore_point():
    """Live objects needed to put everything back between runs."""
    _start.update(
        snap=snapshot(), np_rng=np.random.get_state(), py_rng=random.getstate(),
        pt_rng=torch.get_rng_state(), filters=list(warnings.filters),
        showwarning=warnings.showwarning, formatwarning=warnings.formatwarning,
        env=dict(os.environ), cwd=os.getcwd(), path=list(sys.path), meta=list(sys.meta_path),
        npo=np.get_printoptions(), npe=np.geterr(), npc=np.geterrcall(),
        streams=(sys.stdout, sys.stderr, sys.stdin), gct=gc.get_threshold(),
        tpo=dict(vars(torch._tensor_str.PRINT_OPTS)))


def reset():
    """Back to the settings captured at the start of the process."""
    if not _start:
        return
    s = _start["snap"]
    if not diff(s, snapshot()):
        return
    torch.set_grad_enabled(True)
    torch.set_default_dtype(s["torch.default_dtype"])
    if str(torch.get_default_device()) != s["torch.default_device"]:
        torch.set_default_device(None)
    if torch.get_num_threads() != s["torch.num_threads"]:
        torch.set_num_threads(s["torch.num_threads"])
    if torch.are_deterministic_algorithms_enabled() != s["torch.deterministic"][0]:
        torch.use_deterministic_algorithms(s["torch.deterministic"][0])
    torch.utils.deterministic.fill_uninitialized_memory = s["torch.fill_uninitialized"]
    for k, v in _start["tpo"].items():
        setattr(torch._tensor_str.PRINT_OPTS, k, v)
    torch.set_rng_state(_start["pt_rng"])
    np.random.set_state(_start["np_rng"])
    random.setstate(_start["py_rng"])
    np.set_printoptions(**_start["npo"])
    np.seterr(**_start["npe"])
    np.seterrcall(_start["npc"])
    np.setbufsize(s["numpy.bufsize"])
    warnings.filters[:] = _start["filters"]
    warnings._filters_mutated()
    warnings.showwarning = _start["showwarning"]
    warnings.formatwarning = _start["formatwarning"]
    if dict(os.environ) != _start["env"]:
        os.environ.clear()
        os.environ.update(_start["env"])
    os.chdir(_start["cwd"])
    sys.path[:] = _start["path"]
    sys.stdout, sys.stderr, sys.stdin = _start["streams"]
    sys.setrecursionlimit(s["sys.recursionlimit"])
    sys.setswitchinterval(s["sys.switchinterval"])
    gc.set_threshold(*_start["gct"])
    gc.enable()
    for n, m, was in _ns_base or ():
        for k in _patched_in(n, m, was):
            setattr(m, k, was[k])


def _patched_in(n, m, was):
    now = vars(m)
    return [k for k, v in was.items() if now.get(k) is not v and n + "." + k not in _NS_SKIP]
