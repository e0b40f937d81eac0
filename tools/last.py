#!/usr/bin/env python3
"""Minimise a replay script (one expression per line) that makes a build complain: last.py VARIANT REPLAY"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B, harness as H
dest = B.build(sys.argv[1])
t = open(sys.argv[2], "rb").read().split(b"# ---- replay ----\n", 1)[-1].split(b"\n")
leak = "-leak" in sys.argv
head, body = t[:1], t[1:]
if body and body[0].startswith(b" \"@lib"):
    head, body = t[:2], t[2:]
def bad(lines):
    with H.Scratch() as d:
        open(d + "/data.txt", "w").write("(a b c)\nline two\n42\n")
        open(d + "/t.l", "wb").write(b"\n".join(head + lines) + b"\nT\n")
        r = H.run(dest, ["-d", d + "/t.l"], cwd=d, timeout=20, retry=False)
        return bool(r.monitor() or (r.timeout and "-hang" in sys.argv) or (leak and r.live()))
n = 2
while len(body) > 1:
    step = max(1, len(body) // n)
    for i in range(0, len(body), step):
        c = body[:i] + body[i + step:]
        if bad(c):
            body = c; n = max(n - 1, 2); break
    else:
        if step == 1: break
        n = min(len(body), n * 2)
print(b"\n".join(body).decode("latin-1"))
