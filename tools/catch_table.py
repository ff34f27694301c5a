"""Rewrite section 7 of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
                                      m["needs"].replace("|", "/")))
p = here + "/DESIGN.md"
s = open(p).read()
i = s.index("## 7.")
s = s[:i] + """## 7. Planted bugs and which checks catch them

%d changes, each passing the 289 tests and each with a demonstration. Every one was caught by the quick
check of the property it breaks, within its budget, at seed 1 or 2 when this table was made (violations
of neighbouring properties are reported by those checks too). First missed and caught after the work
described: c06-tie-dither (`ties` contents), c14-sar-nan, c14-fmax (planted anew, the first version broke
nothing), c08-arena (runs extended to thousands of calls when results of different calls share storage),
c03-byteorder (sample types as files deliver them), c09-warn-registry and c09-float-log (long histories
of tiny calls, warnings not ignored), c16-lock (forks while threads are inside), c01-cache-prune (stall
schedules), c01-lock-timeout (virtual time passes while a thread is switched out, timed waits expire),
c02-fft-bucket (lengths at powers of two), c06-time-budget (slow machine, late clock jumps), c06-errstate
(an infinite value is no longer taken for any huge one; the stability test runs under default settings),
c06-hash-seed (another interpreter), c04-shared-errstate (re-entrant calls), c05-load-suppress (in-place
arithmetic is a fault point), c02-version-key (buffers refilled through memory shared with numpy, which no
version counter sees), c10-cached-graph (several forwards on the same tensors), c03-alias-swap (more
overlapping views).

| change | property | what it needs |
|---|---|---|
""" % len(rows) + "\n".join(rows) + "\n"
open(p, "w").write(s)
