#!/usr/bin/env python3
"""C10: the cell allocator (ownership and content monitor)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

chk = H.Check("C10")
chk.rule = ("one evaluation = one cell handed out or content check; distinct = distinct cells of the arena handed out "
            "(of 2.1 million)")
exe = {v: chk.harness(v, "slab_h", "slab_h.c") for v in ("asan", "rel")}
jobs = []
for k in range(chk.n(24, 240)):
    v = "asan" if k % 2 else "rel"
    jobs.append((v, ["random", chk.seed * 1000 + k, 60000, [40, 3000, 5000, 20000][k % 4]]))
jobs += [("asan", ["random", chk.seed + 5, chk.n(400000, 4000000), 200000])]
for v in ("asan", "rel"):
    jobs += [(v, ["fill", chk.seed]), (v, ["oom"])]


def one(j):
    return j, H.run_harness(exe[j[0]], j[1], timeout=800)


for (v, args), r in H.pmap(one, jobs):
    text = r.out.decode("latin-1")
    cmd = "slab_h " + " ".join(map(str, args))
    if text.startswith("OK"):
        st = dict(p.split("=") for p in text.split()[1:] if "=" in p)
        if st:
            chk.evals += int(st["verified"])
            chk.more_distinct = max(chk.more_distinct, int(st["cells"]))
            chk.count("cells_reused", int(st["reused"]))
            chk.counts["peak_live"] = max(chk.counts.get("peak_live", 0), int(st["peak"]))
        chk.count("mode:" + args[0])
        chk.sample(cmd + ": " + text.strip())
    if "FAIL" in text or r.monitor() or r.timeout or r.rc != 0:
        what = [l for l in text.split("\n") if l.startswith("FAIL")]
        chk.violation(what[0].split(":")[0] if what else (r.monitor() or ("hang" if r.timeout else "rc=%s" % r.rc)),
                      "%s (%s)\n%s\n%s" % (cmd, v, text[-6000:], r.err[-3000:].decode("latin-1")), cmd)
chk.finish(minimum=1000)
