"""Entry point:  python -m sim.main check C01 [--runs N] [--wall S] ...
                 python -m sim.main replay FILE
                 python -m sim.main selftest [C01 ...]
"""
import sys

from . import boot

if __name__ == "__main__":
    boot.ensure()

import argparse
import json
import os
import time


def log(*a):
    print(*a, flush=True)


SOFT = ("stall", "slow-child")


def cmd_check(a):
    from . import runner
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    runner.prepare()
    prop = runner.load_prop(a.prop)
    runs, wall = prop.BUDGET[tier]
    if a.runs:
        runs = a.runs
    if a.wall:
        wall = a.wall
    jobs = a.jobs or min(8, os.cpu_count() or 4)
    s = runner.Search(prop.ID, tier, seed, runs, wall, jobs, chunk=getattr(prop, "CHUNK", 20),
                      start=a.start)
    while True:
        s.run()
        if s.hit is None:
            break
        path = runner.report(s, log)
        if path is not None:
            break
        # it depends on something outside the simulation's control (memory
        # addresses, say): look for another one
        log("run %(i)d was not reproducible: %(v)s" % s.hit)
        if s.hit["v"]["key"] in SOFT and len(s.soft) < 4:
            # only ever seen once, and only by the clock on the wall: a slow machine
            s.soft.append(s.hit)
            s.hit = None
            continue
        s.unreproduced.append(s.hit)
        if len(s.unreproduced) >= 5:
            path = runner.report_raw(s)
            break
        s.hit = None
    for k, m in s.known_hits.items():
        log("KNOWN-FINDING: property=%s %s" % (prop.ID, m))
    if s.hit is not None:
        runner.evidence(s, 1, {"violation": json.load(open(path))["violation"]})
        log("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    if s.unreproduced:
        runner.evidence(s, 0, {"unreproduced": s.unreproduced})
        log("ERROR: a violation was observed but could not be reproduced: %s" % s.unreproduced[0])
        return 2
    runner.evidence(s, 0, {"unreproduced_stalls": s.soft, "lost_workers": s.lost}
                    if s.soft or s.lost else None)
    if s.errors:
        log("ERROR: " + s.errors[0])
        return 2
    if s.done == 0:
        log("ERROR: nothing was run")
        return 2
    log("%s: held on %d simulated runs (%d distinct), seed %d, %.1f s; faults %s" % (
        prop.ID, s.done, len(s.nontrivial), seed, time.monotonic() - s.t0,
        json.dumps(s.stats.get("faults", {}), sort_keys=True)))
    return 0


def cmd_replay(a):
    from . import runner
    runner.prepare()
    got, ident, res = runner.replay(a.file)
    return 1 if got else 0


def cmd_selftest(a):
    """Same seeds twice, with different worker counts and chunkings: every
    event-log digest must agree."""
    from . import runner
    runner.prepare()
    bad = 0
    ids = a.props or ["C%02d" % i for i in range(1, 17)]
    for pid in ids:
        prop = runner.load_prop(pid)
        got = []
        for jobs, chunk in ((8, 7), (3, 20)):
            s = runner.Search(pid, "quick", a.seed or 7, a.runs or 60, 600, jobs, chunk=chunk)
            per = {}
            take = s._take

            def spy(j, o, per=per, take=take):
                if "i" in o:
                    per[o["i"]] = o["d"]
                take(j, o)
            s._take = spy
            s.run()
            if s.errors or s.hit:
                log(pid, "error/violation", s.errors[:1], s.hit)
            got.append(per)
        diff = [i for i in got[0] if got[0].get(i) != got[1].get(i)]
        log("%s: %d runs, %d digests differ %s" % (pid, len(got[0]), len(diff), diff[:5]))
        log("  digest-of-digests %08x" % (hash(tuple(sorted(got[0].items()))) & 0xffffffff))
        bad += len(diff)
    return 1 if bad else 0


def cmd_one(a):
    from . import runner
    runner.prepare()
    prop = runner.load_prop(a.prop)
    plan = runner.make_plan(prop, a.seed or 1, a.index, "quick")
    print(json.dumps(plan, indent=1))
    print(json.dumps(runner.execute(prop, plan), indent=1)[:6000])
    return 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    c = sp.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", choices=["quick", "thorough"])
    c.add_argument("--runs", type=int)
    c.add_argument("--wall", type=float)
    c.add_argument("--seed", type=int)
    c.add_argument("--jobs", type=int)
    c.add_argument("--start", type=int, default=0)
    r = sp.add_parser("replay")
    r.add_argument("file")
    t = sp.add_parser("selftest")
    t.add_argument("props", nargs="*")
    t.add_argument("--runs", type=int)
    t.add_argument("--seed", type=int)
    o = sp.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    o.add_argument("--seed", type=int)
    a = ap.parse_args()
    return {"check": cmd_check, "replay": cmd_replay, "selftest": cmd_selftest,
            "one": cmd_one}[a.cmd](a)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
