#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
    "C01": ("ASan+UBSan and a cell-lifetime monitor over generated hostile programs, a misuse matrix of every built-in and malformed texts",
            "No report on the executions explored, in the debug/SSE and the release configuration; trusts ASan/UBSan and the quarantine depth of the cell monitor."),
    "C02": ("online conservation monitor (cells allocated and released, live cells at exit and per iteration, native bytes per iteration) over generated programs and error paths",
            "Conservation observed at exit and in steady state for every run explored; trusts the allocator hooks (--wrap)."),
    "C03": ("differential runtime monitor: generated programs against a reference interpreter, under ASan/UBSan",
            "Agreement with an independent reference interpreter on the programs explored; trusts the reference interpreter."),
    "C04": ("resource monitor (peak cells, limited stack) and differential monitor of tail-recursive programs",
            "Peak cells independent of depth and results equal to the model on the functions explored."),
    "C05": ("differential runtime monitor over groupings of arguments of built-in and generated functions",
            "Agreement with the model for the groupings explored."),
    "C06": ("metamorphic and differential monitor of the reader over layouts, chunkings and delivery paths, under ASan",
            "Agreement of the reader with an independent parser of generated data, for every split of the texts explored."),
    "C07": ("round-trip monitor of the printer over generated values, sizes around the buffer and all byte values",
            "Exact text compared with an independent printer, and read back, for the values explored."),
    "C08": ("history monitor of global bindings against a map model",
            "Every lookup of every history explored agrees with a map."),
    "C09": ("invariant monitor after every tree operation of generated histories (C harness on the real tree, ASan)",
            "Order, contents, red-black invariants and reference counts checked after each operation; exhaustive for small histories."),
    "C10": ("ownership and content monitor of every cell over generated allocation histories up to a full arena (C harness, ASan)",
            "Every cell handed out is checked against the set of live cells."),
    "C11": ("differential monitor of arithmetic, comparison, equality and predicates over edge and random operands under UBSan",
            "All pairs of an edge set plus random operands against 64-bit reference arithmetic."),
    "C12": ("differential monitor of match, cond and deconstruction over generated patterns and near-miss subjects",
            "Agreement with a reference matcher/binder on the patterns explored."),
    "C13": ("byte-exact monitor of files, pipes and channel nesting against a channel model, with open-descriptor accounting",
            "Agreement with a model of the channel stack on the programs explored."),
    "C14": ("differential monitor of every library function against a Python reference, with callback traces and argument-unchanged checks",
            "Agreement with reference functions on the inputs explored."),
    "C15": ("differential monitor: compiled modules against the interpreted source, callbacks traced, under ASan and the cell monitor",
            "Agreement of compiled and interpreted functions on the inputs explored."),
    "C16": ("event and byte monitor of real processes, pipes, sockets and select, peers with injected pauses and partial writes",
            "Exact bytes, events and descriptors on the schedules explored."),
    "C17": ("differential monitor of load over generated directory trees, environments and histories",
            "Agreement with a path-resolution model on the layouts explored."),
    "C18": ("differential monitor of the prompt and file loading on malformed texts, with hang, leak and memory monitors",
            "Transcript agrees with a token-level model of the reader on the texts explored."),
    "C19": ("differential monitor of aliasing: every holder of shared structure printed after every operation",
            "Agreement with a heap model on the sharing patterns explored."),
    "C20": ("differential monitor of command lines, environments, -e and prompt transcripts",
            "Exit status, output and byte-exact ARGV/ENV on the command lines explored."),
    "C21": ("differential monitor: converted functions against their originals over generated bodies and arguments",
            "Agreement of original and converted functions on the programs explored."),
    "C22": ("differential monitor of traced and untraced runs (output, status, allocator counters, trace lines per site) under ASan/UBSan",
            "Same behaviour for every set of categories explored; trusts the allocator hooks."),
    "C23": ("differential monitor of read-time evaluation against a reference reader and interpreter, with ASan/UBSan and cell monitors on malformed texts",
            "Output and conservation of cells agree with the reference on the programs explored."),
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append(dict(property=i, quick_cmd="python3 " + f, thorough_cmd="python3 %s --thorough" % f,
                           technique=TECH[i][0], level="exploration", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py asan rel", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the cell monitor is linked in with --wrap from c/monitor.c."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
