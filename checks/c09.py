#!/usr/bin/env python3
"""C09: the symbol tree is an ordered, balanced map (invariant monitor)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

chk = H.Check("C09")
chk.rule = ("one evaluation = one operation followed by a full walk of the tree compared with a map and the red-black "
            "invariants; distinct = tree shapes (colours included) seen, counted by the harness")
exe = {v: chk.harness(v, "tree_h", "tree_h.c", monitor=True) for v in ("asan", "rel")}
jobs = []
for k in range(chk.n(16, 160)):
    v = "asan" if k % 2 else "rel"
    s = chk.seed * 1000 + k
    jobs.append((v, ["random", s, 120, 150, 24]))
    jobs.append((v, ["random", s + 500000, 12, 1200, 300]))
jobs += [("asan", ["all", n]) for n in (1, 2, 3, 4, 5)]
jobs += [("rel", ["all", 6])] if chk.tier == "thorough" else []
jobs += [("rel", ["perms", n, chk.seed]) for n in ((6, 7, 8) if chk.tier == "quick" else (6, 7, 8, 9))]
jobs += [("asan", ["random", chk.seed + 7, chk.n(1, 6), 6000, 2500])]


def one(j):
    return j, H.run_harness(exe[j[0]], j[1], timeout=800)


for (v, args), r in H.pmap(one, jobs):
    text = r.out.decode("latin-1")
    cmd = "tree_h " + " ".join(map(str, args))
    if text.startswith("OK"):
        st = dict(p.split("=") for p in text.split()[1:])
        chk.evals += int(st["checks"])
        chk.more_distinct = max(chk.more_distinct, int(st["shapes"]))
        chk.count("operations", int(st["ops"]))
        chk.count("histories", int(st["histories"]))
        chk.counts["largest_tree"] = max(chk.counts.get("largest_tree", 0), int(st["max"]))
        chk.counts["greatest_height"] = max(chk.counts.get("greatest_height", 0), int(st["height"]))
        chk.count("mode:" + args[0])
        chk.sample(cmd + ": " + text.strip())
    if "FAIL" in text or r.monitor() or r.timeout or (r.rc != 0):
        what = [l for l in text.split("\n") if l.startswith("FAIL")]
        chk.violation(what[0] if what else (r.monitor() or ("hang" if r.timeout else "rc=%s" % r.rc)),
                      "%s (%s)\n%s\n%s" % (cmd, v, text[-6000:], r.err[-3000:].decode("latin-1")), cmd)
chk.finish(minimum=1000)
