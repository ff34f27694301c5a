"""Process set-up shared by every entry point.

`ensure()` re-executes the interpreter once with the environment the simulator
needs: one numeric thread, fixed hash seed, no GPU, no byte-code files.  After
that every run is a pure function of (plan, code under test).
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FBE_REPO", "/repo")
PY = "/opt/venv/bin/python"

WANT = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MKL_CBWR": "COMPATIBLE",
    "MKL_DISABLE_FAST_MM": "1",     # its buffer lists do not always survive a fork
    "CUDA_VISIBLE_DEVICES": "",
    "PYTHONDONTWRITEBYTECODE": "1",
    "LANG": "C.UTF-8",
}

_libc = None


def die_with_parent():
    """In a forked child: be killed when the process (thread) that forked it ends."""
    try:
        _libc.prctl(1, 9, 0, 0, 0)
    except Exception:
        pass


def _load():
    global _libc
    try:
        import ctypes
        _libc = ctypes.CDLL(None)
    except Exception:
        pass


_load()


def ensure():
    env = dict(os.environ)
    env.setdefault("PYTHONHASHSEED", "0")
    changed = False
    for k, v in WANT.items():
        if env.get(k) != v:
            env[k] = v
            changed = True
    if "PYTHONHASHSEED" not in os.environ:
        changed = True
    if changed and os.environ.get("FBE_SIM_BOOTED") != "1":
        env["FBE_SIM_BOOTED"] = "1"
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-m", "sim.main"] + sys.argv[1:], env)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
