"""C03: the caller's signals are never modified, not even transiently."""
import os
import tempfile

from .common import *

ID = "C03"
BUDGET = {"quick": (9000, 75), "thorough": (2_000_000, 2400)}
RULE = ("one to three calls on inputs of a seeded layout (C, Fortran, transposed, strided, negative "
        "stride, unaligned slice, read-only, memory-mapped, shared with numpy, expanded, "
        "overlapping, the same object twice), succeeding, failing or aborted by an injected fault; "
        "every byte of memory behind the inputs is compared with the original at every step the "
        "package executes; non-trivial if at least one step was observed; distinct by event-log digest")

ALIAS = ["same", "overlap", "overlap", "expand", "views", "views", "halves", "inside"]


def gen_op(rng, fine):
    be = rng.choice(["np", "pt"])
    kw = dict(backend=be, fx=0.12, grad=0.2, exotic=0.2)
    if fine:
        kw["n"] = calls.small_n(rng, 16, 100)
    s = calls.gen_call(rng, **kw)
    if "grad" in s and rng.chance(0.5):
        s["nb"] = 1
    if "grad" not in s:
        if rng.chance(0.75):
            ls = calls.NP_LAYOUTS + ["memmap"] if be == "np" else calls.PT_LAYOUTS
            s["lay"] = [rng.choice(ls), rng.choice(ls)]
        if rng.chance(0.3):
            s["alias"] = rng.choice(ALIAS)
            m = max(s["data"]["nref"], s["data"]["nest"])
            s["data"]["nref"] = s["data"]["nest"] = m
    return s


def generate(rng, tier):
    fine = rng.chance(0.35)
    ops = []
    for _ in range(rng.weighted([(1, 6), (2, 3), (3, 1)])):
        s = gen_op(rng, fine)
        if rng.chance(0.3):
            s["fault"] = [rng.random(), rng.choice(["oom", "kernel", "interrupt", "linalg", "fp"])]
        ops.append(s)
    return {"ops": ops, "fine": fine}


def bare(s):
    return {k: v for k, v in s.items() if k not in ("fault", "alias")}


def build(s, scratch):
    b = bare(s)
    al = s.get("alias")
    if not al:
        return calls.build(b, scratch)
    ref, est = calls.values(b)
    be = b["be"]
    if al == "same":
        r, rb = calls.one(ref, (b.get("lay") or ["C"])[0], be, scratch and scratch + ".r")
        return calls.Inputs(r, r, [rb], be)
    if al == "overlap":         # two windows into one recording, one sample apart
        n = ref.shape[-1]
        buf, bb = calls.one(np.concatenate([ref, est[..., :1]], axis=-1), "C", be)
        return calls.Inputs(buf[..., :n], buf[..., 1:], [bb], be)
    if al == "views":           # est and ref interleaved in one array
        both = np.stack([ref, est], axis=-2).reshape(ref.shape[:-2] + (2 * ref.shape[-2], ref.shape[-1]))
        buf, bb = calls.one(both, "C", be)
        return calls.Inputs(buf[..., 0::2, :], buf[..., 1::2, :], [bb], be)
    if al == "halves":          # two blocks of channels of one array
        buf, bb = calls.one(np.concatenate([ref, est], axis=-2), "C", be)
        c = ref.shape[-2]
        return calls.Inputs(buf[..., :c, :], buf[..., c:, :], [bb], be)
    if al == "inside":          # the estimate is a slice of the reference's own array
        buf, bb = calls.one(np.concatenate([ref, est], axis=-2), "C", be)
        c = ref.shape[-2]
        return calls.Inputs(buf[..., 1:c + 1, :], buf[..., :c, :], [bb], be)
    # expanded along the batch with stride zero
    r1 = ref.reshape((-1,) + ref.shape[-2:])[0]
    e1 = est.reshape((-1,) + est.shape[-2:])[0]
    r, rb = calls.one(r1, "C", be)
    e, eb = calls.one(e1, "C", be)
    if be == "np":
        return calls.Inputs(np.broadcast_to(r, (2,) + r.shape), np.broadcast_to(e, (2,) + e.shape),
                            [rb, eb], be)
    return calls.Inputs(r[None].expand((2,) + tuple(r.shape)), e[None].expand((2,) + tuple(e.shape)),
                        [rb, eb], be)


def meta(x):
    if isinstance(x, torch.Tensor):
        return ("tensor", x._version, tuple(x.shape), x.stride(), x.data_ptr(), x.dtype,
                x.requires_grad, x.is_leaf, len(x._backward_hooks or ()), len(vars(x)))
    return ("array", x.shape, x.strides, x.ctypes.data, x.dtype.str, x.flags.writeable,
            x.flags.aligned, x.flags.owndata)


def grad_of(x):
    if not isinstance(x, torch.Tensor) or not (x.is_leaf or x.retains_grad):
        return None
    g = x.grad
    return None if g is None else (id(g), g._version, g.numpy().tobytes())


class Watch:
    def __init__(self, inp, nb=False):
        self.inp = inp
        self.nb = nb                    # no backward: .grad must not change either
        if nb:
            for x in (inp.ref, inp.est):
                if x.requires_grad and (x.is_leaf or x.retains_grad):
                    x.grad = torch.full_like(x, 3.0)
        self.grads = [grad_of(inp.ref), grad_of(inp.est)]
        self.views = []
        for b in inp.bases:
            a = calls.base_np(b)
            while a.base is not None and isinstance(a.base, np.ndarray) and a.base.size >= a.size:
                a = a.base
            f = a.reshape(-1) if a.flags.c_contiguous else a
            f = f.view(np.uint8) if f.flags.c_contiguous else f
            self.views.append((f, f.copy()))
        self.metas = [meta(inp.ref), meta(inp.est)]
        self.hit = None
        self.seen = 0
        self.every = max(1, sum(f.nbytes for f, _ in self.views) // 200_000)

    def check(self):
        for k, (f, c) in enumerate(self.views):
            if f.tobytes() != c.tobytes():
                i = int(np.flatnonzero(np.atleast_1d((f != c).reshape(-1)))[0])
                return "memory of input buffer %d changed (first at byte %d of %d)" % (k, i, f.nbytes)
        return None

    def step(self, sim, t):
        self.seen += 1
        if self.hit is None and self.seen % self.every == 0:
            d = self.check() or self.check_meta()
            if d:
                fr = sys._getframe(2)
                where = "?"
                while fr is not None:
                    if loader.PKG in fr.f_code.co_filename:
                        where = "%s (%s)" % (fr.f_code.co_name,
                                             fr.f_code.co_filename.rsplit("/fast_bss_eval/", 1)[-1])
                        break
                    fr = fr.f_back
                self.hit = "%s, seen while %s was running" % (d, where)

    def after(self):
        d = self.check()
        if d:
            return self.hit or d + ", seen after the call"
        if self.hit:
            return self.hit + " (restored later)"
        d = self.check_meta()
        if d:
            return d
        if self.nb:
            for name, x, g in (("reference", self.inp.ref, self.grads[0]),
                               ("estimate", self.inp.est, self.grads[1])):
                if grad_of(x) != g:
                    return "the gradient stored on the %s changed" % name
        return None

    def check_meta(self):
        for name, x, m in (("reference", self.inp.ref, self.metas[0]),
                           ("estimate", self.inp.est, self.metas[1])):
            if meta(x) != m:
                return "attributes of the %s changed: %s -> %s" % (name, m, meta(x))
        return None


import sys


def execute(plan):
    scratch = tempfile.mkdtemp(prefix="fbe-c03-")
    try:
        return _execute(plan, scratch)
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)


def _execute(plan, scratch):
    v = None
    sim = core.Sim(fine=plan["fine"], faulty=True)
    seen = 0
    want = []
    for s in plan["ops"]:
        w = None
        # a call must not care whether it is allowed to write to its inputs
        if s.get("lay") and set(s["lay"]) & {"ro", "roown"} and not s.get("alias") and "fault" not in s:
            w = calls.solo(dict(bare(s), lay=["C" if x in ("ro", "roown") else x for x in s["lay"]]))
        want.append(w)
    ambient.reset()
    pkg = calls.fresh_pkg()
    counts = []
    for s in plan["ops"]:        # how many fault points has this call?
        if "fault" in s:
            dry = core.Sim(faulty=True)
            with core.locks_patched(), dry.inline() as t:
                do_call(t, pkg, bare(s), build(s, None if s.get("alias") else None), armed=True)
                counts.append(t.points)
        else:
            counts.append(0)
    loader.detach()
    pkg = calls.fresh_pkg()
    outs = []
    hist = {}
    with core.locks_patched(), sim.inline() as t:
        for i, s in enumerate(plan["ops"]):
            inp = build(s, os.path.join(scratch, "m%d" % i))
            w = Watch(inp, bool(s.get("nb")))
            sim.observers = [w.step]
            fp = {}
            if counts[i]:
                fp = {int(s["fault"][0] * counts[i]): s["fault"][1]}
            o, res = do_call(t, pkg, bare(s), inp, plan=fp, armed=bool(fp))
            sim.observers = []
            note_outcome(sim, o)
            outs.append(o)
            seen += w.seen
            for l in (s.get("lay") or ["C"]) + [s.get("alias") or "distinct"]:
                hist[l] = hist.get(l, 0) + 1
            d = w.after()
            how = "succeeding" if o.ok else "failing (%s)" % o.err
            if d:
                v = vio("modified", "%s; %s call %s%s" % (
                    d, how, calls.describe(bare(s)), " alias=" + s["alias"] if s.get("alias") else ""))
                break
            if want[i] is not None:
                dd = calls.confirmed_diff(o, want[i], bare(s))
                if dd:
                    v = vio("readonly", "result differs when the caller's buffer is read-only: %s; %s"
                            % (calls.describe(bare(s)), dd))
                    break
            del inp, w, res
    st = sim_stats(sim, calls=len(outs), byte_comparisons=seen, layouts=hist,
                   failed_calls=sum(1 for o in outs if not o.ok), faults=fault_names(sim))
    return result(sim, v, st, nt=seen > 0)


def shrink(plan, res):
    ops = plan["ops"]
    for c in ddmin_list(ops):
        if c:
            yield dict(plan, ops=c)
    if plan["fine"]:
        yield dict(plan, fine=False)
    for i, s in enumerate(ops):
        for k in ("fault", "alias"):
            if k in s:
                p = clone(plan)
                del p["ops"][i][k]
                yield p
        for c in calls.simpler(s):
            p = clone(plan)
            p["ops"][i] = c
            yield p
