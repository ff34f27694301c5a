"""Calls on the public API: generation, construction of inputs, execution,
reference results and comparison.

A call spec is plain JSON; everything about a call is a function of it.
"""
import collections
import json
import math
import os
import signal

import numpy as np
import torch

from . import ambient, boot, core, loader

core.set_array_types((np.ndarray, torch.Tensor))

TOP = ["bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss",
       "si_bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss"]
SUB_ONLY = ["pairwise_sdr_loss", "square_cosine_metrics", "pairwise_si_sdr_loss"]
LOSSES = {"sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss", "si_sdr_loss",
          "si_sdr_pit_loss", "pairwise_si_sdr_loss"}
PIT = {"bss_eval_sources", "sdr", "sdr_pit_loss", "si_bss_eval_sources", "si_sdr",
       "si_sdr_pit_loss"}
NP_LAYOUTS = ["C", "F", "T", "strided", "neg", "ro", "offset", "sub", "own", "roown"]
PT_LAYOUTS = ["C", "T", "strided", "sub", "np", "offset"]


# --------------------------------------------------------------------------
# generation

def small_n(rng, lo, hi):
    """A short signal length, often at or next to a power of two."""
    if rng.chance(0.2):
        e = [m + d for m in (16, 32, 64, 128) for d in (0, 0, -1, 1) if lo <= m + d <= hi]
        if e:
            return rng.choice(e)
    return rng.randint(lo, hi)


def gen_size(rng, big=True):
    if rng.chance(0.12):
        return 2 ** rng.randint(5, 13 if big and rng.chance(0.1) else 10) + rng.choice([0, 0, -1, 1])
    r = rng.random()
    if r < 0.40:
        return rng.randint(16, 64)
    if r < 0.80:
        return rng.randint(65, 300)
    if r < 0.95 or not big:
        return rng.randint(300, 2000)
    return rng.randint(2000, 9000)


def gen_filter(rng, n, ch):
    r = rng.random()
    if r < 0.10:
        L = 1
    elif r < 0.45:
        L = rng.randint(2, 8)
    elif r < 0.85:
        L = rng.randint(9, 32)
    else:
        L = rng.randint(33, 128)
    cap = max(2, n // (3 * max(1, ch)))
    if L > cap:
        L = rng.randint(2, cap) if cap > 2 else 2
    return L


def gen_kw(rng, fn, n, ch, default_len=True):
    kw = {}
    if not fn.startswith("si_") and fn != "pairwise_si_sdr_loss":
        kw["filter_length"] = gen_filter(rng, n, ch)
        if default_len and ch <= 2 and n >= 3000 and rng.chance(0.4):
            del kw["filter_length"]
        if rng.chance(0.4):
            kw["use_cg_iter"] = rng.randint(1, 3) if rng.chance(0.4) else rng.randint(4, 15)
        if rng.chance(0.3):
            kw["load_diag"] = (rng.choice([1e-5, 1e-3, 1e-8, 0.1]) if rng.chance(0.8)
                               else round(10 ** rng.uniform(-8, -1), 10))
    if rng.chance(0.35):
        kw["zero_mean"] = True
    if fn != "square_cosine_metrics" and rng.chance(0.3):
        kw["clamp_db"] = (rng.choice([30, 20, 10, 50.0, 3]) if rng.chance(0.75)
                          else round(rng.uniform(1, 60), 3))
    if fn in ("bss_eval_sources", "si_bss_eval_sources") and rng.chance(0.3):
        kw["compute_permutation"] = False
    if fn == "si_bss_eval_sources" and rng.chance(0.3):
        kw["load_diag"] = rng.choice([1e-5, 1e-3])
    if fn in ("sdr", "si_sdr"):
        if rng.chance(0.6):
            kw["return_perm"] = True
        if rng.chance(0.25):
            kw["change_sign"] = True
    if fn in ("sdr_loss", "si_sdr_loss", "square_cosine_metrics") and rng.chance(0.5):
        kw["pairwise"] = rng.chance(0.5)
    return kw


def gen_call(rng, backend=None, fn=None, batch=None, ch=None, n=None, dt=None,
             layouts=True, big=True, grad=0.0, fx=0.0, ints=True, rect=0.1, via=None,
             offset=True, special=True, rare=0.045, exotic=0.0):
    """One random, well-formed call (fx > 0: some with awkward contents)."""
    free = batch is None and ch is None and n is None
    kind = None
    if rng.chance(rare):
        kind = rng.weighted([("crowd", 4), ("many", 4), ("long", 1 if big else 0),
                             ("wide", 2), ("ties", 3)])
        if kind == "crowd" and batch is None and n is None:
            batch = [rng.randint(6, 40)] if rng.chance(0.7) else [rng.randint(2, 6), rng.randint(2, 6)]
            ch = ch or rng.randint(1, 3)
            n = rng.randint(16, 120)
        elif kind == "many" and ch is None:
            ch = rng.randint(6, 9)
            n = n or rng.randint(300, 700)
        elif kind == "long" and free:
            batch, ch, n = [], rng.randint(1, 2), rng.randint(20000, 140000)
        elif kind == "wide" and free:
            # the default filter length: system matrices of several megabytes
            batch, ch, n = [], rng.weighted([(2, 6), (3, 3), (4, 1 if big else 0)]), \
                rng.randint(6000, 9000) if big and rng.chance(0.3) else rng.randint(1600, 2500)
        elif kind == "ties" and ch is None and fn is None:
            # a tight clamp makes entries of the loss matrix exactly equal
            ch, batch = rng.randint(3, 6), batch if batch is not None else rng.choice([[], [2]])
            n = n or rng.randint(100, 400)
            fn = rng.choice(["sdr_pit_loss", "si_sdr_pit_loss", "sdr", "si_sdr", "bss_eval_sources"])
        else:
            kind = None
    backend = backend or ("np" if rng.chance(0.5) else "pt")
    fn = fn or rng.weighted([("bss_eval_sources", 4), ("sdr", 3), ("sdr_loss", 3),
                             ("sdr_pit_loss", 2), ("pairwise_sdr_loss", 1),
                             ("square_cosine_metrics", 1), ("si_bss_eval_sources", 2),
                             ("si_sdr", 2), ("si_sdr_loss", 1), ("si_sdr_pit_loss", 1),
                             ("pairwise_si_sdr_loss", 0.5)])
    if batch is None:
        batch = rng.weighted([([], 45), ([1], 8), ([2], 20), ([3], 15), ([2, 2], 8), ([5], 4)])
    if ch is None:
        ch = rng.weighted([(1, 15), (2, 45), (3, 25), (4, 10), (5, 5)])
    n = n or gen_size(rng, big)
    if n > 2500 and kind is None:
        batch = batch[:1] if batch and batch[0] <= 2 else []
        ch = min(ch, 3)
    nref = nest = ch
    paired = fn in ("sdr_loss", "si_sdr_loss")
    if not paired and ch > 1 and rng.chance(rect):
        if rng.chance(0.5):
            nest = ch - 1
        else:
            nref = ch - 1
    if dt is None:
        dt = rng.weighted([("f8", 60), ("f4", 30), ("i2", 10 if (ints and backend == "np") else 0)])
    if via is None:
        via = "sub" if (fn in SUB_ONLY or rng.chance(0.25)) else "top"
    data = {"seed": rng.getrandbits(32), "batch": list(batch), "nref": nref, "nest": nest,
            "n": n, "noise": rng.choice([0.03, 0.1, 0.3, 1.0, 3.0]),
            "kind": rng.weighted([("white", 6), ("ar", 3), ("tone", 1)])}
    if offset and rng.chance(0.25):
        data["dc"] = rng.choice([0.1, 1.0, -3.0])
    if rng.chance(0.2):
        data["gain"] = rng.choice([1e-3, 1e3, 0.1, 30.0])
    if special and rng.chance(0.07):
        data["special"] = rng.choice(SPECIAL)
    elif batch and rng.chance(0.1):
        data["shared"] = 1              # every batch entry has the same references
    elif special and nest > 1 and dt != "i2" and rng.chance(0.08):
        # estimates that hardly differ: scores tie up to this many digits
        data["close"] = rng.randint(2, 6) if dt == "f8" else 2
    spec = {"fn": fn, "be": backend, "via": via, "dt": dt, "data": data,
            "kw": gen_kw(rng, fn, n, max(nref, nest))}
    if nref != nest and fn == "square_cosine_metrics":
        spec["kw"]["pairwise"] = True   # pairs need as many estimates as references
    if kind == "wide" and "filter_length" in spec["kw"]:
        spec["kw"]["filter_length"] = rng.choice([192, 256, 384, 512])
        if rng.chance(0.5):
            del spec["kw"]["filter_length"]
    if kind == "ties":
        spec["kw"]["clamp_db"] = rng.choice([0.5, 1, 3, 10])
        spec["data"]["noise"] = rng.choice([1.0, 3.0])
    if dt != "i2" and rng.chance(0.03):
        spec["dt2"] = "f4" if dt == "f8" else "f8"      # estimates of another precision
    if rng.chance(0.04):
        spec["kt"] = 1                  # options given as numpy scalars
    if backend == "np" and rng.chance(exotic):
        # sample types as files and sound cards deliver them
        spec["xt"] = [rng.choice([">", ">", "i4", "u1", "g", "="]) for _ in range(2)]
    if layouts and rng.chance(0.5):
        ls = NP_LAYOUTS if backend == "np" else PT_LAYOUTS
        spec["lay"] = [rng.choice(ls), rng.choice(ls)]
    if backend == "pt" and dt != "i2" and rng.chance(grad):
        spec["grad"] = rng.choice(["est", "est", "both"])
        spec["lay"] = ["C", "C"]
        if rng.chance(0.25):
            spec["nl"] = 1              # a non-leaf estimate, as a network produces
    elif backend == "pt" and rng.chance(0.15):
        spec["ng"] = 1
    if rng.chance(fx):
        spec["fx"] = [gen_fx(rng, spec) for _ in range(rng.randint(1, 2))]
    return spec


# contents on which a shortcut may be taken: mean exactly zero, norm exactly
# one, both, samples that are all small integers, the same references in every
# batch entry up to a tiny dither
SPECIAL = ["centred", "unit", "both", "ints", "near"]
FX = ["nan", "inf", "zero", "const", "dup", "ident", "huge", "tiny", "swap", "ints", "ninf"]


def gen_fx(rng, spec, kinds=FX):
    d = spec["data"]
    which = rng.choice(["ref", "est"])
    nch = d["nref"] if which == "ref" else d["nest"]
    nb = int(np.prod(d["batch"])) if d["batch"] else 1
    n = rng.choice([1, 1, 3, d["n"], d["n"]])
    return {"t": rng.choice(kinds), "w": which, "b": rng.randrange(nb), "c": rng.randrange(nch),
            "i": 0 if n == d["n"] else rng.randrange(d["n"]), "len": n}


# --------------------------------------------------------------------------
# data

_data_cache = collections.OrderedDict()


def _signals(d):
    g = np.random.Generator(np.random.PCG64(d["seed"]))
    nb = int(np.prod(d["batch"])) if d["batch"] else 1
    n, nref, nest = d["n"], d["nref"], d["nest"]
    if "rseed" in d:                    # references shared between calls
        g, g2 = np.random.Generator(np.random.PCG64(d["rseed"])), g
    ref = g.standard_normal((nb, nref, n))
    if d["kind"] == "ar":
        ref[..., 1:] += 0.5 * ref[..., :-1]
    elif d["kind"] == "tone":
        t = np.arange(n)
        for b in range(nb):
            for c in range(nref):
                f = g.uniform(0.01, 0.45)
                ref[b, c] = 0.5 * ref[b, c] + np.sin(2 * np.pi * f * t + g.uniform(0, 6))
    if "rseed" in d:
        g = g2
    if d.get("shared"):
        ref[1:] = ref[:1]
    nz = g.standard_normal((nb, nest, n))
    est = np.empty((nb, nest, n))
    for b in range(nb):
        perm = g.permutation(max(nref, nest))
        for c in range(nest):
            src = perm[c] % nref
            s = ref[b, src].copy()
            h = g.uniform(-0.4, 0.4)
            s[1:] += h * ref[b, src, :-1]
            leak = g.uniform(0.05, 0.3)
            est[b, c] = s + leak * ref[b, (src + 1) % nref] + d["noise"] * nz[b, c]
    if d.get("close") and nest > 1:
        est[:, 1] = 1.7 * est[:, 0] + 10.0 ** -d["close"] * nz[:, 1]
    if "dc" in d:
        ref += d["dc"]
        est -= 0.7 * d["dc"]
    if "gain" in d:
        est *= d["gain"]
    if d.get("special"):
        if d["special"] == "near":
            ref[1:] = ref[:1] * (1 + 1e-6 * np.sign(ref[1:]))
        else:
            for a in (ref, est):
                _special(a, d["special"])
    return ref, est


def _special(a, kind):
    n = a.shape[-1]
    if kind in ("centred", "ints"):
        np.round(40 * a, out=a)
        np.clip(a, -2000, 2000, out=a)
    if kind in ("unit", "both"):
        k = int(math.log2(n) / 2)
        m = 4 ** k
        a[...] = np.where(a < 0, -1.0, 1.0) * 2.0 ** -k
        a[..., m:] = 0.0
        if kind == "both" and m > 1:
            a[..., m // 2:m] = -a[..., :m // 2]
    if kind == "centred":
        h = n // 2
        a[..., h:2 * h] = -a[..., :h]
        a[..., 2 * h:] = 0.0


def _apply_fx(ref, est, fx):
    for e in fx:
        a = ref if e["w"] == "ref" else est
        b, c = e["b"] % a.shape[0], e["c"] % a.shape[1]
        t = e["t"]
        i0 = e["i"]
        sl = slice(i0, i0 + max(1, e.get("len", 1)))
        if e.get("len", 1) >= a.shape[2]:
            sl = slice(None)
        if t == "nan":
            a[b, c, sl] = np.nan
        elif t == "inf":
            a[b, c, sl] = np.inf
        elif t == "ninf":
            a[b, c, sl] = -np.inf
        elif t == "zero":
            a[b, c] = 0.0
        elif t == "bump":
            a[b, c, i0 % a.shape[2]] += 0.5 + abs(a[b, c, i0 % a.shape[2]])
        elif t == "drop":
            a[b, c, sl] = 0.0
        elif t == "const":
            a[b, c] = 0.25
        elif t == "dup":
            a[b, c] = a[b, (c + 1) % a.shape[1]]
        elif t == "ident":
            k = c % min(ref.shape[1], est.shape[1])
            est[b, k] = ref[b, k]
        elif t == "huge":
            a[b, c] *= 1e150 if e.get("dt") != "f4" else 1e18
        elif t == "tiny":
            a[b, c] *= 1e-160 if e.get("dt") != "f4" else 1e-20
        elif t == "clip":
            np.clip(a[b, c], -0.1, 0.1, out=a[b, c])
        elif t == "gain":
            a[b, c] *= e.get("g", 1e4)
        elif t == "noise":
            g = np.random.Generator(np.random.PCG64(e["i"]))
            a[b, c] = g.standard_normal(a.shape[2])
        elif t == "swap":
            a[b, c] = a[b, c][::-1].copy()
        elif t == "ints":
            a[b] = np.round(a[b])
        elif t == "impulse":
            a[b, c] = 0.0
            a[b, c, i0 % a.shape[2]] = 1.0


def values(spec):
    """(ref, est) as plain C-contiguous arrays of the call's dtype (do not modify)."""
    key = json.dumps([spec["data"], spec.get("fx"), spec["dt"], spec.get("dt2"),
                      spec["be"] == "np" and spec.get("xt")], sort_keys=True)
    got = _data_cache.get(key)
    if got is not None:
        _data_cache.move_to_end(key)
        return got
    d = spec["data"]
    ref, est = _signals(d)
    dt = spec["dt"]
    if dt == "i2":
        ref, est = np.clip(ref * 4000, -32000, 32000), np.clip(
            est * 4000 / max(1.0, d.get("gain", 1.0)), -32000, 32000)
    if spec.get("fx"):
        with np.errstate(all="ignore"):
            _apply_fx(ref, est, [dict(e, dt="f4" if spec.get("dt2") else dt) for e in spec["fx"]])
    shape = tuple(d["batch"])
    ref = ref.reshape(shape + ref.shape[1:])
    est = est.reshape(shape + est.shape[1:])
    with np.errstate(all="ignore"):
        if dt == "i2":
            ref, est = np.nan_to_num(ref), np.nan_to_num(est)
        ref, est = ref.astype(dt), est.astype(spec.get("dt2") or dt)
        if spec.get("xt") and spec["be"] == "np":
            ref, est = (_exotic(a, t) for a, t in zip((ref, est), spec["xt"]))
    ref = np.ascontiguousarray(ref)
    est = np.ascontiguousarray(est)
    ref.setflags(write=False)
    est.setflags(write=False)
    _data_cache[key] = (ref, est)
    while len(_data_cache) > 64:
        _data_cache.popitem(last=False)
    return ref, est


def _exotic(a, t):
    if t == ">":
        return a.astype(a.dtype.newbyteorder(">"))
    if t == "g":
        return a.astype(t)
    if t in ("i4", "u1"):
        a = np.nan_to_num(a.astype(np.float64), posinf=0, neginf=0)
        m = max(1e-30, np.max(np.abs(a)))
        return np.round(a / m * (2 ** 20 if t == "i4" else 100) + (0 if t == "i4" else 128)).astype(t)
    return a


def aligned(shape, dtype):
    dtype = np.dtype(dtype)
    nbytes = int(np.prod(shape, dtype=np.int64)) * dtype.itemsize
    raw = np.empty(nbytes + 64, np.uint8)
    off = (-raw.ctypes.data) % 64
    return raw[off:off + nbytes].view(dtype).reshape(shape)


def np_layout(arr, lay, scratch=None):
    """(view with the contents of arr, base array that owns the memory)."""
    s = arr.shape
    if lay == "F":
        base = aligned(s[::-1], arr.dtype)
        v = base.transpose(tuple(range(arr.ndim))[::-1])
    elif lay == "T":
        base = aligned(s[:-2] + (s[-1], s[-2]), arr.dtype)
        v = base.swapaxes(-1, -2)
    elif lay == "strided":
        base = aligned(s[:-1] + (2 * s[-1],), arr.dtype)
        base[...] = 7
        v = base[..., ::2]
    elif lay == "neg":
        base = aligned(s, arr.dtype)
        v = base[..., ::-1]
    elif lay == "offset":
        base = aligned(s[:-1] + (s[-1] + 5,), arr.dtype)
        base[...] = 7
        v = base[..., 3:3 + s[-1]]
    elif lay == "sub":
        base = aligned(s[:-2] + (s[-2] + 2, s[-1]), arr.dtype)
        base[...] = 7
        v = base[..., 1:1 + s[-2], :]
    elif lay == "memmap" and scratch is not None:
        base = np.memmap(scratch, dtype=arr.dtype, mode="w+", shape=s)
        v = base
    elif lay in ("own", "roown"):           # an array that owns its memory
        v = base = np.empty(s, arr.dtype)
    else:
        base = aligned(s, arr.dtype)
        v = base
    v[...] = arr
    if lay == "roown":
        v.setflags(write=False)
    if lay == "ro":
        v = v.view()
        v.setflags(write=False)
    return v, base


def pt_layout(arr, lay):
    dt = {"f8": torch.float64, "f4": torch.float32, "i2": torch.int16}[arr.dtype.str[1:]]
    s = arr.shape
    src = torch.from_numpy(arr.copy())
    if lay == "T":
        base = torch.empty(s[:-2] + (s[-1], s[-2]), dtype=dt, device="cpu")
        v = base.transpose(-1, -2)
    elif lay == "strided":
        base = torch.full(s[:-1] + (2 * s[-1],), 7, dtype=dt, device="cpu")
        v = base[..., ::2]
    elif lay == "sub":
        base = torch.full(s[:-2] + (s[-2] + 2, s[-1]), 7, dtype=dt, device="cpu")
        v = base[..., 1:1 + s[-2], :]
    elif lay == "offset":
        base = torch.full(s[:-1] + (s[-1] + 5,), 7, dtype=dt, device="cpu")
        v = base[..., 3:3 + s[-1]]
    elif lay == "np":
        base = aligned(s, arr.dtype)
        base[...] = arr
        return torch.from_numpy(base), base
    else:
        base = torch.empty(s, dtype=dt, device="cpu")
        v = base
    v.copy_(src)
    return v, base


class Inputs:
    """The argument objects of one call, and what owns their memory."""
    __slots__ = ("ref", "est", "bases", "be")

    def __init__(self, ref, est, bases, be):
        self.ref, self.est, self.bases, self.be = ref, est, bases, be

    def raw(self, which):
        """A numpy view of the argument's memory (shares memory)."""
        x = self.ref if which == "ref" else self.est
        return as_np(x)


def as_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().numpy()
    return x


def base_np(b):
    return b.detach().numpy() if isinstance(b, torch.Tensor) else np.asarray(b)


def one(arr, lay, be, scratch=None):
    return np_layout(arr, lay, scratch) if be == "np" else pt_layout(arr, lay)


def build(spec, scratch=None):
    ref, est = values(spec)
    lay = spec.get("lay") or ["C", "C"]
    r, rb = one(ref, lay[0], spec["be"], scratch and scratch + ".r")
    e, eb = one(est, lay[1], spec["be"], scratch and scratch + ".e")
    if spec.get("same"):                    # the same object passed twice
        e, eb = r, rb
    g = spec.get("grad")
    if g:
        e.requires_grad_(True)
        if g == "both" and r is not e:
            r.requires_grad_(True)
        if spec.get("nl") and r is not e:
            with torch.enable_grad():
                e = eb = e.clone()      # saves nothing for backward: may be used twice
            e.retain_grad()
    return Inputs(r, e, [rb, eb], spec["be"])


# --------------------------------------------------------------------------
# execution

def resolve(pkg, spec):
    if spec["via"] == "top":
        return getattr(pkg, spec["fn"])
    return getattr(pkg.numpy if spec["be"] == "np" else pkg.torch, spec["fn"])


def invoke(pkg, spec, inp):
    f = resolve(pkg, spec)
    kw = dict(spec["kw"])
    if spec.get("kt"):
        kw = {k: (np.bool_ if isinstance(x, bool) else np.int64 if isinstance(x, int)
                  else np.float64)(x) for k, x in kw.items()}
    if (spec["fn"] in LOSSES) != bool(spec.get("swap")):    # "swap": roles exchanged
        return f(inp.est, inp.ref, **kw)
    return f(inp.ref, inp.est, **kw)


def leaves(res):
    return list(res) if isinstance(res, (tuple, list)) else [res]


def grad_weights(spec, i, shape):
    if spec.get("gw"):
        return np.ones(shape)
    g = np.random.Generator(np.random.PCG64([spec["data"]["seed"], i]))
    return g.uniform(0.5, 1.5, size=shape)


def run_backward(spec, res, inp, how="mul", ws=None, **kw):
    """how: the loss is a weighted sum ("mul"), or its gradient tensors are
    given by the caller ("direct", kept in ws from one backward to the next),
    or (unit weights only) a plain sum, whose gradient is an expanded scalar"""
    if how == "direct":
        xs = [x for x in leaves(res) if isinstance(x, torch.Tensor) and x.is_floating_point()]
        for i, x in enumerate(xs):
            if len(ws) <= i:
                ws.append(torch.from_numpy(grad_weights(spec, i, tuple(x.shape))).to(x.dtype))
        torch.autograd.backward(xs, ws[:len(xs)], **kw)
        return [t.grad.detach().clone().numpy() if t.grad is not None else None
                for t in (inp.ref, inp.est) if t.requires_grad]
    tot = None
    for i, x in enumerate(leaves(res)):
        if not isinstance(x, torch.Tensor) or not x.is_floating_point():
            continue
        if how == "sum":
            t = x.sum()
        else:
            w = torch.from_numpy(grad_weights(spec, i, tuple(x.shape))).to(x.dtype)
            t = (x * w).sum()
        tot = t if tot is None else tot + t
    tot.backward(**kw)
    return [t.grad.detach().clone().numpy() if t.grad is not None else None
            for t in (inp.ref, inp.est) if t.requires_grad]


class Outcome:
    """What a call did, detached from every live object."""
    __slots__ = ("ok", "leaves", "err", "msg", "grads", "multi")

    def __init__(self):
        self.ok = False
        self.leaves = []
        self.err = None
        self.msg = ""
        self.grads = None
        self.multi = False

    def brief(self):
        if not self.ok:
            return "raised %s(%s)" % (self.err, self.msg[:140])
        s = []
        for a, kind in self.leaves:
            with np.printoptions(precision=6, threshold=8, edgeitems=3):
                s.append("%s%s%s" % (kind, list(a.shape),
                                     str(a.ravel()[:6]).replace("\n", " ")))
        return "; ".join(s) + (" +grads" if self.grads else "")


def record(res):
    o = Outcome()
    o.ok = True
    o.multi = isinstance(res, (tuple, list))
    for x in leaves(res):
        if isinstance(x, torch.Tensor):
            o.leaves.append((x.detach().cpu().numpy().copy(),
                             "t:" + str(x.dtype) + (":g" if x.requires_grad else "")))
        elif isinstance(x, (np.ndarray, np.generic)):
            o.leaves.append((np.array(x), "n:" + str(x.dtype)))
        else:
            o.leaves.append((np.array(float("nan")), "other:" + type(x).__name__))
    return o


def failure(e):
    o = Outcome()
    o.err = type(e).__name__
    o.msg = str(e)
    return o


def call(pkg, spec, inp):
    """(outcome, live result or None).  SimAbort and SystemExit pass through."""
    try:
        if spec.get("ng"):
            with torch.no_grad():
                res = invoke(pkg, spec, inp)
        else:
            res = invoke(pkg, spec, inp)
        o = record(res)
        if spec.get("grad") and not spec.get("nb") and o.leaves[0][1].endswith(":g"):
            o.grads = run_backward(spec, res, inp)
        return o, res
    except (core.SimAbort, SystemExit, GeneratorExit):
        raise
    except BaseException as e:
        o = failure(e)
        if SCRUB:
            _scrub(e)
        return o, None


SCRUB = True            # C09 leaves exceptions as a caller would see them


def _scrub(e):
    """Drop the traceback so that frames do not keep arrays alive."""
    seen = 0
    while e is not None and seen < 10:
        e.__traceback__ = None
        e, seen = (e.__context__ or e.__cause__), seen + 1


# --------------------------------------------------------------------------
# comparison

def _coh(db):
    with np.errstate(all="ignore"):
        return 1.0 / (1.0 + 10.0 ** (-np.asarray(db, np.float64) / 10.0))


def _close(a, b, f32, coh_kind):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.tobytes() == b.tobytes():
        return True
    a = a.astype(np.float64)
    b = b.astype(np.float64)
    nan = np.isnan(a) == np.isnan(b)
    with np.errstate(all="ignore"):
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        if coh_kind:
            ok = np.abs(a - b) <= (2e-6 if f32 else 1e-11) * np.maximum(1.0, np.abs(a))
        else:
            d = np.abs(a - b)
            ok = d <= (2e-3 if f32 else 1e-6)
            ok |= np.abs(_coh(a) - _coh(b)) <= (2e-6 if f32 else 1e-12)
            # rounding turns an infinite value into some 150 dB, not into this
            for x, y in ((a, b), (b, a)):
                ok &= ~(np.isinf(x) & (np.abs(y) > 600) & np.isfinite(y))
    return bool(np.all(nan & (same | ok)))


_EDGE = ("zero-size array to reduction", "inf and -inf", "numeric entries", "infeasible",
         "reduction dim", "numel() == 0")


def _edge(ok, bad):
    """A metric that is infinite in exact arithmetic (a single reference has
    no interference) comes out as 150 dB or as inf depending on the last bit,
    and the assignment step rejects a matrix with nothing but inf.  Neither
    outcome says anything about the properties checked here."""
    if bad.err not in ("ValueError", "RuntimeError") or not any(m in bad.msg for m in _EDGE):
        return False
    return _extreme(ok)


def diff(got, want, spec=None, exact_err=True):
    """None if `got` is what `want` says, else a short description."""
    if got.ok != want.ok:
        if _edge(*((got, want) if got.ok else (want, got))):
            return None
        return "expected %s, got %s" % (want.brief(), got.brief())
    if not want.ok:
        if exact_err and got.err != want.err:
            return "expected error %s, got %s" % (want.err, got.brief())
        return None
    if len(got.leaves) != len(want.leaves) or got.multi != want.multi:
        return "expected %d values, got %d" % (len(want.leaves), len(got.leaves))
    coh_kind = bool(spec) and spec["fn"] == "square_cosine_metrics"
    for i, ((a, ka), (b, kb)) in enumerate(zip(got.leaves, want.leaves)):
        if ka != kb or a.shape != b.shape:
            return "value %d: expected %s%s, got %s%s" % (i, kb, b.shape, ka, a.shape)
        if a.dtype.kind in "iub":
            if not np.array_equal(a, b):
                return "value %d: expected %s, got %s" % (i, b.tolist(), a.tolist())
        else:
            f32 = a.dtype.itemsize <= 4 or bool(spec and (spec.get("xt") or "f4" in (
                    spec["dt"], spec.get("dt2"))))
            if not _close(a, b, f32, coh_kind):
                return "value %d: expected %s, got %s" % (i, want.brief(), got.brief())
    if (got.grads is None) != (want.grads is None):
        return "gradient presence differs"
    if want.grads is not None:
        r = diff_grads(got.grads, want.grads)
        if r:
            return r
    return None


def diff_grads(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if (a is None) != (b is None):
            return "gradient %d present/absent" % i
        if a is None:
            continue
        if a.shape != b.shape or a.dtype != b.dtype:
            return "gradient %d: shape/dtype %s%s vs %s%s" % (i, a.dtype, a.shape, b.dtype, b.shape)
        if a.tobytes() == b.tobytes():
            continue
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return "gradient %d: finite pattern differs" % i
        x, y = a[fa].astype(np.float64), b[fb].astype(np.float64)
        nrm = np.linalg.norm(y)
        tol = 1e-2 if a.dtype.itemsize <= 4 else 1e-6
        if not np.linalg.norm(x - y) <= tol * max(nrm, 1e-300):
            return "gradient %d: relative error %.3g" % (i, np.linalg.norm(x - y) / max(nrm, 1e-300))
    return None


# --------------------------------------------------------------------------
# the reference: the call made alone by a brand-new instance of the package

_solo_cache = collections.OrderedDict()
SOLO_CALLS = 0


def fresh_pkg():
    with core.locks_patched():
        return loader.fresh()


def solo(spec, tag=None):
    """Outcome of the call made alone, in a fresh instance, on fresh copies."""
    global SOLO_CALLS
    key = json.dumps(spec, sort_keys=True)
    got = _solo_cache.get(key)
    if got is not None:
        _solo_cache.move_to_end(key)
        return got
    saved = loader.detach()
    try:
        pkg = fresh_pkg()
        with core.locks_patched():
            o, _ = call(pkg, spec, build(spec))
        SOLO_CALLS += 1
    finally:
        loader.attach(saved)
    _solo_cache[key] = o
    while len(_solo_cache) > 512:
        _solo_cache.popitem(last=False)
    return o


def degenerate(spec):
    d = spec["data"]
    return bool(spec.get("fx") or spec.get("same") or d.get("special") or d.get("close"))


def confirmed_diff(got, want, spec, **kw):
    """Like diff, but for awkward contents first rule out that the reference
    itself is at the mercy of rounding (singular systems, exact ties)."""
    d = diff(got, want, spec, **kw)
    if d is None:
        return strict_diff(got, want, spec)
    if not (degenerate(spec) or d.startswith("gradient")
                         or _extreme(got) or _extreme(want)):
        return d
    if unstable(spec):
        return None
    return d


def _extreme(o):
    """Some metric is infinite in exact arithmetic: ties between such values
    are decided by the last bit."""
    for a, _ in o.leaves:
        if a.dtype.kind == "f" and a.size:
            with np.errstate(all="ignore"):
                if np.any(np.abs(a) > (120.0 if a.dtype.itemsize == 8 else 50.0)):
                    return True
    return False


_unstable = {}


def unstable(spec):
    """True if perturbing the samples by one part in 1e13 (1e6 for float32)
    changes the reference outcome: nothing can be concluded from it."""
    key = json.dumps(spec, sort_keys=True)
    if key in _unstable:
        return _unstable[key]
    pid = os.fork()
    if pid == 0:                        # default settings, whatever they are by now
        code = 2
        try:
            boot.die_with_parent()
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            ambient.reset()
            torch.autograd.set_detect_anomaly(False)
            with torch.inference_mode(False), torch.enable_grad():
                _solo_cache.clear()
                code = 1 if _wobbles(spec, solo(spec)) else 0
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    bad = os.waitstatus_to_exitcode(st) != 0
    if len(_unstable) > 500:
        _unstable.clear()
    _unstable[key] = bad
    return bad


# The loose tolerances above absorb rounding whatever its amplification.  Two
# results that differ in their bits at all are rare: for those the rounding
# noise of this very call is measured, and a difference far above it is real.
NOISE_FACTOR = 1000.0
FLOOR_DB, FLOOR_COH, FLOOR_GRAD = 1e-10, 1e-12, 1e-10


def _spread(a, b):
    """Largest difference over the values that are not infinite in exact arithmetic."""
    with np.errstate(all="ignore"):
        m = np.isfinite(a) & np.isfinite(b) & (np.abs(b) < 120.0)
        return float(np.max(np.abs(a - b)[m], initial=0.0))


def _grad_spread(a, b):
    with np.errstate(all="ignore"):
        m = np.isfinite(a) & np.isfinite(b)
        n = np.linalg.norm(b[m])
        return float(np.linalg.norm(a[m] - b[m]) / n) if n > 0 else 0.0


def strict_diff(got, want, spec):
    """For outcomes equal within tolerance: None, or how they differ beyond rounding."""
    if not got.ok or spec is None or spec["dt"] != "f8" or spec.get("dt2") or spec.get("xt"):
        return None
    coh = spec["fn"] == "square_cosine_metrics"
    worst = []
    for i, ((a, _), (b, _)) in enumerate(zip(got.leaves, want.leaves)):
        if a.dtype == np.float64 and b.dtype == np.float64 and a.shape == b.shape \
                and a.tobytes() != b.tobytes():
            d = _spread(a, b)
            if d > (FLOOR_COH if coh else FLOOR_DB):
                worst.append((d, "v", i))
    for i, (a, b) in enumerate(zip(got.grads or (), want.grads or ())):
        if a is not None and b is not None and a.shape == b.shape and a.tobytes() != b.tobytes():
            d = _grad_spread(a, b)
            if d > FLOOR_GRAD:
                worst.append((d, "g", i))
    if not worst:
        return None
    ns = noise(spec)
    if ns is None:
        return None
    for d, k, i in worst:
        x = ns[0 if k == "v" else 1]
        if i < len(x) and d > NOISE_FACTOR * x[i] + (FLOOR_GRAD if k == "g" else
                                                     FLOOR_COH if coh else FLOOR_DB):
            return "%s %d: off by %.3g, rounding accounts for %.3g; expected %s, got %s" % (
                "gradient" if k == "g" else "value", i, d, x[i], want.brief(), got.brief())
    return None


_noise = {}


def noise(spec):
    """([spread of each value], [spread of each gradient]) under perturbations
    of the samples by a rounding error or a few; None if that tells nothing."""
    key = json.dumps(spec, sort_keys=True)
    if key in _noise:
        return _noise[key]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            boot.die_with_parent()
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            ambient.reset()
            torch.autograd.set_detect_anomaly(False)
            with torch.inference_mode(False), torch.enable_grad():
                _solo_cache.clear()
                res = _measure_noise(spec, solo(spec))
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = json.loads(data) if data else None
    if len(_noise) > 500:
        _noise.clear()
    _noise[key] = res
    return res


def _measure_noise(spec, base):
    saved = loader.detach()
    vals, grads = [0.0] * len(base.leaves), [0.0] * len(base.grads or ())
    try:
        if not base.ok:
            return None
        for k in range(10):
            pkg = fresh_pkg()
            lay = None if spec.get("grad") else [["C", "C"], ["offset", "T"], ["T", "T"]][k % 3]
            inp = build(dict(spec, lay=lay))
            g = np.random.Generator(np.random.PCG64(k))
            for b in (inp.ref, inp.est):
                v = as_np(b)
                eps = (2.3e-16, 1e-15)[k % 2]
                with np.errstate(all="ignore"):
                    v *= 1 + eps * g.choice([-1.0, 0.0, 1.0], size=v.shape)
            o, _ = call(pkg, spec, inp)
            if not o.ok or len(o.leaves) != len(base.leaves) or diff(o, base, spec):
                return None
            for i, ((a, _), (b, _)) in enumerate(zip(o.leaves, base.leaves)):
                if a.dtype == np.float64:
                    vals[i] = max(vals[i], _spread(a, b))
            for i, (a, b) in enumerate(zip(o.grads or (), base.grads or ())):
                if a is not None:
                    grads[i] = max(grads[i], _grad_spread(a, b))
    finally:
        loader.attach(saved)
    return [vals, grads]


def _wobbles(spec, base):
    saved = loader.detach()
    bad = False
    try:
        for k in range(12 if _extreme(base) else 3):
            pkg = fresh_pkg()
            lay = None if spec.get("grad") else [["C", "C"], ["offset", "T"], ["T", "T"]][k % 3]
            inp = build(dict(spec, lay=lay))
            g = np.random.Generator(np.random.PCG64(k))
            for b in (inp.ref, inp.est):
                v = as_np(b)
                if v.dtype.kind == "f":
                    eps = (1e-13 if v.dtype.itemsize == 8 else 1e-6) * (1 + k % 2) * (k < 9)
                    with np.errstate(all="ignore"):
                        v *= (1 + eps * g.standard_normal(v.shape)).astype(v.dtype)
            o, _ = call(pkg, spec, inp)
            if diff(o, base, spec) is not None:
                bad = True
                break
    finally:
        loader.attach(saved)
    return bad


def describe(spec):
    d = spec["data"]
    return "%s[%s/%s] ref%s est%s %s %s%s" % (
        spec["fn"], spec["be"], spec["via"], d["batch"] + [d["nref"], d["n"]],
        d["batch"] + [d["nest"], d["n"]], spec["dt"],
        json.dumps(spec["kw"], sort_keys=True), " fx=%s" % spec["fx"] if spec.get("fx") else "")


def simpler(spec):
    """Shrinking candidates for one call, simplest first."""
    out = []

    def alt(**k):
        s = json.loads(json.dumps(spec))
        for a, b in k.items():
            if b is None:
                s.pop(a, None)
            else:
                s[a] = b
        if s != spec:
            out.append(s)

    def data(**k):
        s = json.loads(json.dumps(spec))
        for a, b in k.items():
            if b is None:
                s["data"].pop(a, None)
            else:
                s["data"][a] = b
        if s != spec:
            out.append(s)
    d = spec["data"]
    alt(lay=None)
    alt(grad=None)
    alt(ng=None)
    alt(nl=None)
    alt(nb=None)
    alt(kt=None)
    alt(xt=None)
    if spec.get("xt"):
        alt(xt=[spec["xt"][0], "="])
        alt(xt=["=", spec["xt"][1]])
    alt(dt2=None)
    data(shared=None)
    data(close=None)
    alt(fx=None)
    data(special=None)
    if spec.get("fx") and len(spec["fx"]) > 1:
        for e in spec["fx"]:
            alt(fx=[e])
    if d["batch"]:
        data(batch=[])
        if len(d["batch"]) > 1:
            data(batch=d["batch"][:1])
        if d["batch"][0] > 2:
            data(batch=[2])
    m = max(d["nref"], d["nest"])
    if m > 1:
        data(nref=1, nest=1)
        data(nref=2, nest=2)
    for n in (16, 32, 64, 128, 256, 512, 1024, 2048):
        if n < d["n"]:
            s = json.loads(json.dumps(spec))
            s["data"]["n"] = n
            L = s["kw"].get("filter_length")
            if L is not None and L > max(2, n // (3 * m)):
                s["kw"]["filter_length"] = max(2, n // (3 * m))
            if L is None and "filter_length" not in s["kw"] and n < 1536:
                continue
            out.append(s)
    for k in list(spec["kw"]):
        if k in ("filter_length",):
            continue
        s = json.loads(json.dumps(spec))
        del s["kw"][k]
        out.append(s)
    for L in (2, 4, 8):
        if spec["kw"].get("filter_length", 0) > L:
            s = json.loads(json.dumps(spec))
            s["kw"]["filter_length"] = L
            out.append(s)
    data(dc=None)
    data(gain=None)
    if d["kind"] != "white":
        data(kind="white")
    if spec["dt"] == "f4":
        alt(dt="f8")
    return out
