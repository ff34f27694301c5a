"""C14: non-finite samples are never masked."""
from .common import *

ID = "C14"
BUDGET = {"quick": (9000, 75), "thorough": (2_000_000, 1800)}
RULE = ("a history of calls on one pair of buffers in which samples become NaN or infinite (single "
        "samples, bursts, whole channels, one or several channels of references or estimates, any "
        "batch entry) and heal again; every metric that involves a damaged signal must be NaN unless "
        "the call raises, and after healing the result is the original one; non-trivial if at least "
        "one call with damaged samples was made; distinct by event-log digest")

KINDS = ["nan", "inf", "ninf", "nan", "mixed", "snan"]


def gen_damage(rng, s):
    d = s["data"]
    nb = int(np.prod(d["batch"])) if d["batch"] else 1
    out = []
    for _ in range(rng.weighted([(1, 6), (2, 3), (4, 1)])):
        w = rng.choice(["ref", "est"])
        C = d["nref"] if w == "ref" else d["nest"]
        L = s["kw"].get("filter_length", 512)
        i = rng.weighted([(rng.randrange(d["n"]), 4), (0, 1), (d["n"] - 1, 1),
                          (max(0, d["n"] - L), 1), (min(d["n"] - 1, L), 1)])
        out.append({"w": w, "b": rng.randrange(nb), "c": rng.randrange(C), "i": i,
                    "len": rng.choice([1, 1, 1, 2, 7, d["n"]]), "k": rng.choice(KINDS)})
    return out


def generate(rng, tier):
    s = calls.gen_call(rng, big=rng.chance(0.1), ints=False, rect=0.2)
    if rng.chance(0.3):
        s["data"]["nref"] = s["data"]["nest"] = max(s["data"]["nref"], s["data"]["nest"])
    if s.get("lay"):
        s["lay"] = ["C" if l in ("ro", "roown") else l for l in s["lay"]]
    if rng.chance(0.3):
        s["kw"]["clamp_db"] = rng.choice([10, 30, 60])
        if s["fn"] == "square_cosine_metrics":
            s["kw"].pop("clamp_db")
    if s["fn"] in ("bss_eval_sources", "si_bss_eval_sources") and rng.chance(0.5):
        s["kw"]["compute_permutation"] = False
        m = min(s["data"]["nref"], s["data"]["nest"])
        s["data"]["nref"] = s["data"]["nest"] = m
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append(["hit", gen_damage(rng, s)])
        if rng.chance(0.5):
            ops.append(["heal"])
        if rng.chance(0.3):
            ops.append(["swap"])        # estimate and reference kwargs as keyword / other backend
    return {"call": s, "ops": ops}


def damage(arrs, dmg):
    for e in dmg:
        a = arrs[e["w"]]
        f = a.reshape((-1,) + a.shape[-2:])
        row = f[e["b"] % f.shape[0], e["c"] % f.shape[1]]
        sl = slice(e["i"], e["i"] + e["len"])
        if e["len"] >= row.shape[0]:
            sl = slice(None)
        if e["k"] == "mixed":
            v = row[sl]
            v[0::2] = np.inf
            v[1::2] = -np.inf
        elif e["k"] == "snan":      # a NaN with another payload and sign
            row[sl] = np.copysign(np.float64(np.nan), -1.0)
        else:
            row[sl] = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf}[e["k"]]


def masked(spec, o, badr, bade, nb):
    """First (description) of a finite number that should be NaN, or None.

    badr (nb, nref), bade (nb, nest): which channels hold non-finite samples."""
    fn = spec["fn"]
    nref, nest = badr.shape[1], bade.shape[1]
    nbd = len(spec["data"]["batch"])
    lv = [a.reshape((nb,) + a.shape[nbd:]) for a, _ in o.leaves]
    kw = spec["kw"]
    anyr = badr.any(axis=1)

    def look(what, b, idx, val, why):
        if not np.isnan(val):
            return "%s%s of batch entry %d is %r although %s" % (what, list(idx), b, float(val), why)
        return None

    def pairwise(x, what, bad_rows, bad_cols):
        for b in range(nb):
            for i in range(x.shape[1]):
                for j in range(x.shape[2]):
                    if bad_rows[b, i] or bad_cols[b, j]:
                        r = look(what, b, (i, j), x[b, i, j], "one of its signals is not finite")
                        if r:
                            return r
        return None

    if fn in ("sdr_loss", "si_sdr_loss") and not kw.get("pairwise"):
        x = lv[0]
        for b in range(nb):
            for c in range(nref):
                if badr[b, c] or bade[b, c]:
                    r = look("sdr", b, (c,), x[b, c], "one of its signals is not finite")
                    if r:
                        return r
        return None
    if fn in ("sdr_loss", "si_sdr_loss", "pairwise_sdr_loss", "pairwise_si_sdr_loss"):
        return pairwise(lv[0], "sdr", badr, bade)
    if fn == "square_cosine_metrics":
        pw = kw.get("pairwise", True)
        names = ["cosine(ref, est)", "cosine(all ref, est)"]
        if pw:
            return pairwise(lv[0], names[0], badr, bade) or next(
                (r for b in range(nb) for j in range(nest) for i in range(lv[1].shape[1])
                 if (anyr[b] or bade[b, j])
                 for r in [look(names[1], b, (i, j), lv[1][b, i, j], "a signal is not finite")] if r), None)
        if nref != nest:
            return None
        for b in range(nb):
            for c in range(nref):
                for q, x in enumerate(lv[:2]):
                    if bade[b, c] or (badr[b, c] if q == 0 else anyr[b]):
                        r = look(names[q], b, (c,), x[b, c], "a signal is not finite")
                        if r:
                            return r
        return None
    if fn in ("bss_eval_sources", "si_bss_eval_sources"):
        if kw.get("compute_permutation", True):
            perm = lv[3]
            for b in range(nb):
                if not (badr[b].any() or bade[b].any()):
                    continue
                # no permutation can be optimal here: nothing in this entry may
                # rest on a damaged signal
                for k in range(perm.shape[1]):
                    e = int(perm[b, k])
                    for q, x in zip(("sdr", "sir", "sar"), lv[:3]):
                        if (nref <= nest and (badr[b, k] or bade[b, e])) or anyr[b] and q != "sdr":
                            r = look(q, b, (k,), x[b, k], "one of its signals is not finite")
                            if r:
                                return r
            return None
        m = min(nref, nest)
        for b in range(nb):
            for q, x in zip(("sdr", "sir", "sar"), lv[:3]):
                if x.ndim == 3:
                    for i in range(x.shape[1]):
                        for j in range(x.shape[2]):
                            if bade[b, j] or (badr[b, i] if q == "sdr" else anyr[b]):
                                r = look(q, b, (i, j), x[b, i, j], "a signal is not finite")
                                if r:
                                    return r
                else:
                    for c in range(m):
                        if bade[b, c] or (badr[b, c] if q == "sdr" else anyr[b]):
                            r = look(q, b, (c,), x[b, c], "a signal is not finite")
                            if r:
                                return r
        return None
    # permutation-invariant SDR and losses
    x = lv[0]
    for b in range(nb):
        if not (badr[b].any() or bade[b].any()):
            continue
        if len(lv) > 1 and nref <= nest:
            perm = lv[1]
            for k in range(perm.shape[1]):
                if badr[b, k] or bade[b, int(perm[b, k])]:
                    r = look("sdr", b, (k,), x[b, k], "one of its signals is not finite")
                    if r:
                        return r
        elif badr[b].sum() > max(0, nref - x.shape[1]) or bade[b].sum() > max(0, nest - x.shape[1]):
            if not np.isnan(x[b]).any():
                return "no metric of batch entry %d is NaN although one of its signals is not finite" % b
    return None


def execute(plan):
    s = plan["call"]
    want = calls.solo(s)
    nb = int(np.prod(s["data"]["batch"])) if s["data"]["batch"] else 1
    ambient.reset()
    pkg = calls.fresh_pkg()
    sim = core.Sim()
    inp = calls.build(s)
    arrs = {"ref": calls.as_np(inp.ref), "est": calls.as_np(inp.est)}
    orig = {k: a.copy() for k, a in arrs.items()}
    v = None
    faults = {}
    st = {"calls": 0, "raised": 0, "returned": 0, "healed": 0}
    tr = None
    with core.locks_patched(), sim.inline() as t:
        for k, op in enumerate(plan["ops"]):
            if op[0] == "hit":
                damage(arrs, op[1])
                for e in op[1]:
                    faults[e["k"]] = faults.get(e["k"], 0) + 1
            elif op[0] == "heal":
                for w, a in arrs.items():
                    a[...] = orig[w]
                st["healed"] += 1
            q = s
            if op[0] == "swap":
                q = dict(s, via="sub" if s["via"] == "top" or s["fn"] in calls.SUB_ONLY else "top")
            o, _ = do_call(t, pkg, q, inp)
            note_outcome(sim, o)
            st["calls"] += 1
            badr = ~np.isfinite(arrs["ref"].reshape((nb,) + arrs["ref"].shape[-2:])).all(axis=-1)
            bade = ~np.isfinite(arrs["est"].reshape((nb,) + arrs["est"].shape[-2:])).all(axis=-1)
            hurt = badr.any() or bade.any()
            if hang(o):
                v = vio("hang", "%s: %s" % (hang(o), calls.describe(s)))
            elif not hurt:
                d = calls.confirmed_diff(o, want, s)
                if d:
                    v = vio("heal", "the buffers hold the original samples again, but %s; %s" % (
                        d, calls.describe(s)))
            elif not o.ok:
                st["raised"] += 1
            else:
                st["returned"] += 1
                m = masked(s, o, badr, bade, nb)
                if m:
                    v = vio("masked", "%s: %s; damage %s" % (m, calls.describe(s), op[1] if op[0] == "hit" else plan["ops"][:k]))
            if v:
                tr = {"op": k}
                break
    return result(sim, v, sim_stats(sim, faults=faults, **st), trace=tr)


def shrink(plan, res):
    ops = plan["ops"]
    for c in ddmin_list(ops):
        if c:
            yield dict(plan, ops=c)
    for i, op in enumerate(ops):
        if op[0] == "hit" and len(op[1]) > 1:
            for c in ddmin_list(op[1]):
                q = clone(ops)
                q[i] = ["hit", c]
                yield dict(plan, ops=q)
        if op[0] == "hit":
            for j, e in enumerate(op[1]):
                if e["len"] > 1:
                    q = clone(ops)
                    q[i][1][j]["len"] = 1
                    yield dict(plan, ops=q)
    for c in calls.simpler(plan["call"]):
        n = c["data"]["n"]
        q = clone(ops)
        for op in q:
            if op[0] == "hit":
                for e in op[1]:
                    e["i"] = min(e["i"], n - 1)
        yield dict(plan, call=c, ops=q)
