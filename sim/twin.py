"""A separate interpreter that evaluates a list of calls, each alone in a fresh
instance of the package: another hash seed, other ids and addresses, another
working directory, locale and time zone.

    python -m sim.twin < specs.json > outcomes.pickle
"""
import json
import os
import pickle
import subprocess
import sys

from . import boot


def ask(specs, hash_seed, cwd="/", timeout=140):
    """Outcomes of the calls as such an interpreter sees them."""
    from . import calls
    env = dict(os.environ, **boot.WANT)
    env.update(PYTHONHASHSEED=str(hash_seed), PYTHONPATH=boot.VERIF, FBE_SIM_BOOTED="1",
               LANG="C", LC_ALL="C", TZ="Asia/Tokyo", COLUMNS="40")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.twin"], cwd=cwd, env=env,
                       input=json.dumps(specs).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout, preexec_fn=boot.die_with_parent)
    if p.returncode:
        raise RuntimeError("twin interpreter: " + p.stderr.decode(errors="replace")[-800:])
    out = []
    for d in pickle.loads(p.stdout):
        o = calls.Outcome()
        for k, v in d.items():
            setattr(o, k, v)
        out.append(o)
    return out


def main():
    from . import runner
    calls = runner.prepare()
    keep = os.dup(1)
    os.dup2(2, 1)
    out = []
    for s in json.load(sys.stdin):
        o = calls.solo(s)
        out.append({k: getattr(o, k) for k in o.__slots__})
    with os.fdopen(keep, "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
