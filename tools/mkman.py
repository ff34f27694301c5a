import json
props={d["id"]:d for d in map(json.loads,open("/verif/properties.jsonl"))}
note={
"C01":"Seeded search over interleavings of 2-4 threads (random, burst and PCT schedules, line or byte-code granularity) and re-entrant calls; each call compared with the same call alone in a fresh instance.",
"C02":"Seeded search over call histories on reused, refilled and recycled buffers; each outcome compared with the call alone in a fresh instance.",
"C03":"Every byte behind the inputs compared with the original at every step the package executes, and after it; many layouts, aliasing arrangements and injected faults.",
"C04":"Failures injected at seeded kernel calls, operators, function entries and steps; a snapshot of process and thread settings compared before and after, then probe calls and held locks checked.",
"C05":"Every kernel call and array operator of a call is a fault point; single, multiple and persistent faults; the outcome must be an exception or the fault-free result.",
"C06":"Seeded combinations of ambient settings, set before the call or flipped at a step of it; outcome compared with the default environment.",
"C07":"Seeded damage to a subset of batch entries, before or during the call; the intact entries compared with the undamaged run.",
"C08":"Histories of calls interleaved with overwriting of results and inputs; a shadow copy of every live array is compared after every operation, and memory ranges are checked for overlap.",
"C09":"Histories including failed calls; weak references, retained package allocations and growth over repetitions are checked after everything is dropped.",
"C10":"Interleavings of forwards, backwards and other calls over 1-4 autograd graphs, with overwrites in between and backward in another thread.",
"C11":"Seeded import faults: modules absent, broken or of another version, the k-th import statement failing, an interrupt at any step; then numpy (and torch) calls compared with a healthy process.",
"C12":"Step counter with an allowance 20 times what the sizes call for, over contents built to provoke ties, infinities and singular systems, mid-call corruption and persistently failing kernels.",
"C13":"Recording and failing standard streams, descriptors 1 and 2 and interpreter audit events watched during ordinary, failing and faulted calls.",
"C14":"Histories of buffers damaged by non-finite samples and healed; every metric resting on a damaged signal must be NaN unless the call raises.",
"C16":"The simulator forks the real process at seeded steps of seeded interleavings and histories; calls made in the child (only the forking thread survives) and in the parent are compared with the same calls alone, functions are sent by pickle, blocked children are detected.",
"C15":"A simulated evaluation farm with crashing workers, retries, duplicates and regrouping; each delivered result compared with the recording evaluated alone.",
}
trust=" Sampling, not proof. Trusted: numpy/scipy/torch kernels are atomic steps, one numeric thread, CPython 3.12 monitoring; comparisons allow rounding differences (1e-6 dB or 1e-12 in coherence for float64)."
reason="A pure function of the call's arguments: no schedule, clock, fault, history or configuration in it, so a simulator has nothing to decide; checking it would be input generation against a numerical oracle, which is another technique."
na={
"N01":reason,"N02":reason,"N03":reason+" (Termination of the assignment step under pathological contents is claimed as C12.)","N04":reason,
"N05":reason,"N06":reason,"N07":reason,"N08":reason,
"N09":"The derivative at a point is a pure function of the arguments; when backward runs, which is schedule-dependent, is claimed as C10. Comparing with finite differences is numerical testing, not simulation.",
"N10":"There is no accelerator in the sandbox, and a simulated device would replace the very kernels whose placement is in question. The part that depends on configuration (default dtype and device) is claimed in C06.",
}
checks=[]
for p in sorted(note):
    cmd="/opt/venv/bin/python -m sim.main check %s --tier "%p
    checks.append({"property":p,"quick_cmd":cmd+"quick","thorough_cmd":cmd+"thorough",
      "evidence_file":"evidence/%s.json"%p,
      "technique":"deterministic simulation with fault injection (seeded search)",
      "level":"exploration","level_note":note[p]+trust})
m={"version":1,
 "setup_cmd":"/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/verif'); import numpy, scipy, torch, sim.main, sim.runner\"",
 "checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
 "notes":"No hooks in /repo were needed: every seam (threads, locks, clock, kernels, imports, streams, ambient state) is reached from outside the package. Replay a violation with: /opt/venv/bin/python -m sim.main replay FILE. Determinism self-test: /opt/venv/bin/python -m sim.main selftest."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
assert set(note)|set(na)==set(props)
import subprocess
