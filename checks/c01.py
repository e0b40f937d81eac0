#!/usr/bin/env python3
"""C01: memory safety.  The deciding monitors are ASan, UBSan and the cell
monitor; values are not judged here."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import gen
import harness as H
import workload as W

chk = H.Check("C01")
chk.rule = ("batches of hostile programs (types confused), misuse calls of every built-in, malformed texts and large "
            "values, run under ASan+UBSan+cell monitor in the debug and release configurations; each expression or "
            "text counts once; non-trivial: it was run to its marker or reported")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
for v, d in DEST.items():
    for m in ("iterators", "manips"):
        log = open(os.path.join(d, "transpiled", m + ".log"), "rb").read()
        chk.count("transpiler_runs")
        if b"AddressSanitizer" in log or b"runtime error:" in log or b"MNML-MONITOR" in log or b"rc=-" in log:
            chk.violation("memory error while compiling the module " + m, log[-4000:])


def script(kind, i):
    r = chk.rng(kind, i)
    if kind == "hostile":
        out = [D.HEADER]
        for k in range(15):
            g = gen.G(r, "p%d" % k)
            out += [D.e2(e) for e in g.hostile_program(d=r.choice([2, 3, 4, 5]))]
    else:
        out = [W.MODULES]
        for k in range(60):
            e = W.misuse(r)
            out.append(e if r.random() < 0.3 else "(printl %s)" % e)
    out.append('(prinl "\x01END\x01")')
    return out


def run_script(job):
    kind, i, variant, quar = job
    out = script(kind, i)
    with H.Scratch() as d:
        prep(d)
        p = os.path.join(d, "t.l")
        with open(p, "wb") as fh:
            fh.write("\n".join(out).encode("latin-1") + b"\n")
        r = H.run(DEST[variant], ["-d", p], cwd=d, env={"MNML_VERIF_QUARANTINE": str(quar)}, timeout=40)
    return job, out, r


def prep(d):
    with open(os.path.join(d, "data.txt"), "w") as fh:
        fh.write("(a b c)\nline two\n42\n")


def report(what, r, text):
    m = r.monitor()
    if m:
        chk.violation("%s: %s" % (what, m), r.err[-5000:].decode("latin-1"), text)
    elif r.timeout:
        chk.violation("%s: hang" % what, "", text)
    if r.stats:
        chk.count("cells_allocated", r.stats[0])
        chk.count("cells_released", r.stats[1])


jobs = []
for kind, n in (("hostile", chk.n(300, 3000)), ("misuse", chk.n(600, 6000))):
    for i in range(n):
        jobs.append((kind, i, "asan" if i % 3 else "rel", [4096, 60000, 16, 256][i % 4]))
for (kind, i, variant, _), out, r in H.pmap(run_script, jobs):
    chk.count("runs:%s:%s" % (kind, variant))
    if b"\x01END\x01" in r.out:
        chk.count("ran_to_the_end")
    for e in out[1:-1]:
        chk.saw(e)
    report("program (%s, quarantine %s)" % (variant, _), r, "\n".join(out))
    if chk.too_many():
        break


def run_text(job):
    i, variant = job
    r = chk.rng("text", i)
    t = "\n".join(W.text(r) for _ in range(6))
    if not W.acceptable(t):
        t = W.text(r)
    b = t.encode("latin-1", "replace")
    how = i % 4
    with H.Scratch() as d:
        prep(d)
        p = os.path.join(d, "t.l")
        if how == 0:
            with open(p, "wb") as fh:
                fh.write(b)
            res = H.run(DEST[variant], ["-d", p], cwd=d, timeout=40)
        elif how == 1:
            res = H.run(DEST[variant], ["-d"], stdin=b, cwd=d, timeout=40)
        elif how == 2:
            res = H.run(DEST[variant], ["-d", "-e", b.replace(b"\0", b"")], cwd=d, timeout=40)
        else:
            with open(os.path.join(d, "u.txt"), "wb") as fh:
                fh.write(b)
            with open(p, "w") as fh:
                fh.write(W.MODULES + '(in "u.txt" (printl (read)) (printl (read)) (printl (readline)) (printl (read)))\n'
                         '(in "u.txt" (printl (readline)) (printl (read)))\n(load "u.txt")\nT\n')
            res = H.run(DEST[variant], ["-d", p], cwd=d, timeout=40)
    return i, variant, b, res


for i, variant, b, r in H.pmap(run_text, [(i, "asan" if i % 3 else "rel") for i in range(chk.n(1600, 20000))]):
    chk.saw(b, trivial=len(b) < 2)
    chk.count("texts:%s" % ["file", "prompt", "-e", "channel"][i % 4])
    report("text", r, b)
    if chk.too_many():
        break

# large values
BIG = []
for n in (1000, 20000, 200000):
    BIG.append(("list of %d" % n, """(load 'std 'math 'logic 'io "@lib/iterators.l" "@lib/rev.l")
(def mk (n acc) (if (<= n 0) acc (mk (- n 1) (cons n acc))))
(setq big (mk %d NIL))
(printl (len big))
(setq r (rev big)) (printl (car r)) (setq r 1)
(setq dup (conc (list 0) big)) (printl (len dup))
(setq big 5) (setq dup 6)
(prinl "\x01END\x01") T
""" % n))
BIG.append(("long string", """(load 'std 'math 'logic 'io)
(setq s "%s") (printl (len s)) (prinl s) (print s) (printl (= s s)) (printl (sym s))
(in s (readline)) (out s (prin 1)) (load s)
(prinl "\x01END\x01") T
""" % ("x" * 3000)))
BIG.append(("nested list", """(load 'std 'math 'logic 'io)
(setq s '%s1%s) (printl s) (printl (= s s)) (setq s 1)
(prinl "\x01END\x01") T
""" % ("(" * 400, ")" * 400)))
jobs = [(n, t, v) for n, t in BIG for v in DEST]


def run_big(job):
    n, t, v = job
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "w") as fh:
            fh.write(t)
        return job, H.run(DEST[v], ["-d", p], cwd=d, timeout=100)


for (n, t, v), r in H.pmap(run_big, jobs):
    chk.saw(n + v)
    chk.count("large_values")
    report(n, r, t[:20000])
    if not r.monitor() and b"\x01END\x01" not in r.out:
        chk.violation(n + ": stopped early", r.err[-2000:], t[:20000])

# command lines and environments
CL = []
for n in (0, 1, 255, 1023, 1024, 1025, 2047, 4000, 4095, 4096, 4097, 9000):
    CL.append((["-d", "x" * n], {}))
    CL.append((["-d", "-e", "(load 'std)"], {"HOME": "/" + "h" * n}))
    CL.append((["-d", "-e", "(load 'std 'nope \"~/x\")"], {"MNML_MODULE_PATH": "/" + "m" * n}))
    CL.append((["-d", "-e", "(load \"@lib/rev.l\" \"x\")"], {"MNML_SCRIPT_PATH": "/" + "s" * n}))
    CL.append((["-d", "-e", "(load \"x\")"], {"PWD": "/" + "s" * n}))
    CL.append((["-d", "-e", "\"%s\"" % ("q" * n)], {}))
CL.append((["-d", "-e"], {}))
CL.append((["-Z"], {}))
CL.append((["-d", ""], {}))
for (a, e), r in H.pmap(lambda j: (j, H.run(DEST["asan"], j[0], env=j[1], timeout=40)), CL):
    chk.saw(repr((a, e)))
    chk.count("command_lines")
    report("command line", r, repr((a, e)))


# exec replaces the process: one process per call
def run_exec(i):
    r = chk.rng("exec", i)
    x = lambda: r.choice([p for p in W.POOL if "string" not in p])
    t = "(exec %s %s %s)" % (r.choice(['"no/such/program"', '"."', "NIL", "'s", '""', '"%s"' % ("p" * 5000), "5", "'(1)"]),
                             r.choice([x(), "(list %s)" % " ".join(['"a"'] * r.choice([1, 126, 127, 128, 129, 300]))]),
                             r.choice([x(), "(list %s)" % " ".join(['"A=b"'] * r.choice([1, 127, 128, 129, 300]))]))
    return t, H.run(DEST["asan"], ["-e", "(load 'std 'unix) " + t], timeout=40)


for t, r in H.pmap(run_exec, range(chk.n(40, 400))):
    chk.saw(t)
    chk.count("exec_calls")
    report("exec", r, t)
chk.sample("\n".join(script("misuse", 0)[:12]))
chk.sample("\n".join(script("hostile", 0)[1:6]))
chk.finish(minimum=chk.n(5000, 50000))
