#!/usr/bin/env python3
"""C02: conservation of cells.  The oracle is the allocator itself: cells
allocated and released are counted by the cell monitor and by slabinfo, and
mnml -d reports leaks in its exit status."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import gen
import harness as H
import workload as W

chk = H.Check("C02")
chk.rule = ("programs, misuse calls, malformed texts (file, prompt, -e, channel) and failing loads run to their end, "
            "live cells compared with zero; repeated expressions, live cells and bytes of native memory compared between repetitions; "
            "non-trivial: the run released at least 100 cells more than start-up")
DEST = {v: chk.build(v) for v in ("asan", "rel")}


def judge(what, r, text, n=1, expect_rc=None):
    if r.monitor() or r.timeout or r.stats is None:
        chk.inconclusive += 1          # memory errors and hangs are C01's
        return
    chk.count("cells_allocated", r.stats[0])
    chk.count("cells_released", r.stats[1])
    chk.count("runs:" + what)
    if r.stats[3] != 0 or r.stats[0] != r.stats[1]:
        chk.violation("%s: %d cells not released at exit" % (what, r.stats[0] - r.stats[1]),
                      "allocated %d, released %d, slab says %d live, exit status %s" %
                      (r.stats[0], r.stats[1], r.stats[3], r.rc), text)
    elif expect_rc is not None and r.rc != expect_rc:
        chk.violation("%s: exit status %s with -d although every cell was released" % (what, r.rc),
                      r.err[-1000:], text)


def prep(d):
    with open(os.path.join(d, "data.txt"), "w") as fh:
        fh.write("(a b c)\nline two\n42\n")


def tail_form(r, f, ps, d):
    """The last expression of a function that is never called: any form with any number of parts."""
    if d <= 0 or r.random() < 0.15:
        return r.choice(["x", "1", "NIL", "T", "()", "'a", "(%s)" % f, "(%s 1)" % f, "(%s %s)" % (f, " ".join(ps)),
                         "(%s 1 2 3 4 5 6)" % f, "(%s NIL NIL)" % f])
    sub = [tail_form(r, f, ps, d - 1) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4]))]
    k = r.choice(["when", "unless", "if", "cond", "match", "prog", "let", "and", "or", "\\", "plain", "|>"])
    if k == "cond":
        return "(cond%s)" % "".join(r.choice([" (nil? . %s)", " ((= 1) . %s)", " (nil? %s)", " (_ . %s)"]) % t for t in sub)
    if k == "match":
        if not sub:
            return r.choice(["(match)", "(match x)"])
        return "(match x%s)" % "".join(r.choice([" (_ . %s)", " ((a . b) . %s)", " (1 %s)", " ((a) . %s)"]) % t for t in sub)
    if k == "let":
        return "(let %s%s)" % (r.choice(["NIL", "((a . 1))", "((a . 1) (b . x))", "(((a b) . '(1 2)))"]),
                               "".join(" " + t for t in sub))
    if k == "\\":
        return "(\\ %s%s)" % (r.choice(["(a)", "(a b)", "NIL", "((a . b))"]), "".join(" " + t for t in sub))
    if k == "plain":
        return "(%s%s)" % (f, "".join(" " + t for t in sub))
    return "(%s%s)" % (k, "".join(" " + t for t in sub))


def script(kind, i):
    r = chk.rng(kind, i)
    if kind == "hostile":
        out = [D.HEADER]
        for k in range(15):
            g = gen.G(r, "p%d" % k)
            out += [D.e2(e) for e in g.hostile_program(d=r.choice([2, 3, 4, 5]))]
    elif kind == "tails":
        out = ["(load 'std 'logic 'math 'io)"]
        for k in range(60):
            n = r.choice([1, 1, 2, 3])
            ps = r.sample(["x", "y", "z", "w"], n)
            pt = [r.choice([p, p, p, "(%s . q%s)" % (p, p), "_"]) for p in ps]
            body = " ".join(tail_form(r, "f%d" % k, ps, r.choice([1, 2, 3])) for _ in range(r.choice([0, 1, 1, 1, 2])))
            x = r.random()
            if x < 0.7:
                out.append("(def f%d (%s) %s)" % (k, " ".join(pt), body))
            elif x < 0.85:
                out.append("(setq f%d (\\ (%s) %s))" % (k, " ".join(pt), body))
            else:
                out.append("(setq f%d (let ((k . 1) (x . (list 1 2))) (\\ (%s) %s)))" % (k, " ".join(pt), body))
            if r.random() < 0.3:
                out.append("(def f%d (%s) %s)" % (k, " ".join(pt), body))
    else:
        out = [W.MODULES]
        for k in range(60):
            e = W.misuse(r)
            out.append(e if r.random() < 0.3 else "(printl %s)" % e)
    return out + ["T"]


def run_script(job):
    kind, i, variant = job
    out = script(kind, i)
    with H.Scratch() as d:
        prep(d)
        p = os.path.join(d, "t.l")
        with open(p, "wb") as fh:
            fh.write("\n".join(out).encode("latin-1") + b"\n")
        r = H.run(DEST[variant], ["-d", p], cwd=d, timeout=40)
    return job, out, r


# typed programs, those to which the model gives a meaning
def make(i):
    r = chk.rng("typed", i)
    g = gen.G(r, "p%d" % (i % 15), dict(closure=2, partial=2, mutate=2, library=1.5))
    return g.program(d=r.choice([2, 3, 4, 5]))


cases = D.generate(chk, make, chk.n(6000, 80000))
batches = [cases[k:k + 15] for k in range(0, len(cases), 15)]


def run_typed(job):
    k, batch = job
    text = D.text_of(batch)
    variant = "asan" if k % 3 else "rel"
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "wb") as fh:
            fh.write(text.encode("latin-1"))
        return batch, text, H.run(DEST[variant], ["-d", p], cwd=d, timeout=60)


for batch, text, r in H.pmap(run_typed, list(enumerate(batches))):
    for c in batch:
        chk.saw("\n".join(c[1]))
    judge("program", r, text, expect_rc=0)
    if chk.too_many():
        break

jobs = []
for kind, n in (("hostile", chk.n(150, 3000)), ("misuse", chk.n(400, 6000)), ("tails", chk.n(60, 2000))):
    for i in range(n):
        jobs.append((kind, i, "asan" if i % 3 else "rel"))
for (kind, i, variant), out, r in H.pmap(run_script, jobs):
    for e in out[1:-1]:
        chk.saw(e)
    judge(kind, r, "\n".join(out))
    if chk.too_many():
        break


def run_text(i):
    r = chk.rng("text", i)
    t = "\n".join(W.text(r) for _ in range(3))
    if not W.acceptable(t):
        t = W.text(r)
    b = t.encode("latin-1", "replace")
    how = i % 4
    variant = "asan" if i % 3 else "rel"
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        if how == 0:
            with open(p, "wb") as fh:
                fh.write(b)
            res = H.run(DEST[variant], ["-d", p], cwd=d, timeout=40)
        elif how == 1:
            res = H.run(DEST[variant], ["-d"], stdin=b, cwd=d, timeout=40)
        elif how == 2:
            res = H.run(DEST[variant], ["-d", "-e", b.replace(b"\0", b"")], cwd=d, timeout=40)
        else:
            with open(os.path.join(d, "u.txt"), "wb") as fh:
                fh.write(b)
            with open(p, "w") as fh:
                fh.write(W.MODULES + '(in "u.txt" (printl (read)) (printl (read)) (printl (readline)) (printl (read)))\n'
                         '(in "u.txt" (printl (readline)) (printl (read)))\n(load "u.txt")\nT\n')
            res = H.run(DEST[variant], ["-d", p], cwd=d, timeout=40)
    return how, b, res


for how, b, r in H.pmap(run_text, range(chk.n(1200, 16000))):
    chk.saw(b, trivial=len(b) < 2)
    judge("text/" + ["file", "prompt", "-e", "channel"][how], r, b)
    if chk.too_many():
        break

# steady state
REP = 6


def make_steady(i):
    r = chk.rng("steady", i)
    g = gen.G(r, "s%d" % (i % 10), dict(closure=2, partial=2))
    out = []
    defs = []
    for _ in range(r.randrange(0, 3)):
        defs.append(g.recursion(2) if r.random() < 0.5 else g.define(3))
    return defs + [g.expr(g.anytype(), [], r.choice([3, 4, 5]))]


steady = D.generate(chk, make_steady, chk.n(1600, 20000))
sb = [steady[k:k + 10] for k in range(0, len(steady), 10)]


def run_steady(job):
    k, batch = job
    out = [D.HEADER.replace("'io", "'io 'sys")]
    for i, exprs, _ in batch:
        out += exprs[:-1]
        for j in range(REP):
            out.append(exprs[-1])
            out.append('(prinl "\x02%d " (car (slabinfo)) " " (cdr (slabinfo)) "\x02")' % i)
    out.append("T")
    text = "\n".join(out) + "\n"
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "wb") as fh:
            fh.write(text.encode("latin-1"))
        return batch, text, H.run(DEST["asan" if k % 2 else "rel"], ["-d", p], cwd=d, timeout=60)


for batch, text, r in H.pmap(run_steady, list(enumerate(sb))):
    if r.monitor() or r.timeout:
        chk.inconclusive += 1
        continue
    seen = {}
    for i, a, f in re.findall(rb"\x02(\d+) (\d+) (\d+)\x02", r.out):
        seen.setdefault(int(i), []).append(int(a) - int(f))
    for i, exprs, _ in batch:
        live = seen.get(i, [])
        if len(live) != REP:
            chk.inconclusive += 1
            continue
        chk.saw("steady " + "\n".join(exprs))
        chk.count("steady_state_series")
        if len(set(live[2:])) != 1:
            chk.violation("live cells grow with the number of evaluations", "live cells after each evaluation: %s" % live,
                          "\n".join(exprs))
    judge("steady", r, text, expect_rc=0)
    if chk.too_many():
        break
# native memory: what the interpreter holds besides cells must not grow with the number of repetitions either
OPS = ['(in "data.txt" (printl (readline)) (printl (read)) (readline) (readline))', '(in "nofile" 1)',
       '(out "o.txt" (prinl "abc"))', '(out "/nonexistent/x" 1)', '(load "m.l")', '(load "nofile.l")', "(load 'std)",
       "(load 'nomodule)", "(load '(std car))", '(load "bad.l")', '(in "bad.l" (read) (read) (readline) (read))',
       "(map (\\ (x) (+ x 1)) (list 1 2 3))", '(connect "127.0.0.1" "1")', '(connect 1 2)',
       '(run "/bin/true" NIL NIL)', '(run "/nonexistent" NIL NIL)', '(out (cdr p) (prinl "x"))(in (car p) (readline))',
       "(printl (str 'abc) (sym \"xyz\"))", "'(a . b c)", '"a\\nb\\tc"', '(unlink "zz")', '(dup 1 50)(close 50)',
       '(wait 999999)', '(foldl + 0 (list 1 2 3))', '(time)', '(slabinfo)', "(eval '(+ 1 2))", '(+ 1 "abc" \x01)',
       '(out 2 (prinl "err"))', '(dup 0 60)(in 60 1)(close 60)', '(getpid)', '(strref 3 "abcdef")',
       "(setq big (list 1 2 3))(setq big NIL)", "(def ff (a b) (+ a b))", "((ff 1) 2)", '(printl ff)',
       '((\\ (p) (close (car p)) (close (cdr p))) (pipe))', '(quote "string" symbol ^c 12)']
HEAP = ("(load 'std 'logic 'math 'io 'unix 'sys \"@lib/append.l\" \"@lib/iterators.l\" \"@lib/run.l\")\n"
        "(setq p (pipe))\n")


def heap_piece(r, how):
    x = r.random()
    if x < 0.35:
        return r.choice(OPS)
    if x < 0.55:
        t = W.misuse(r)
        return r.choice(OPS) if re.search("fork|exec|quit|select|wait|run|listen|read|in |out ", t) else t
    t = W.text(r)
    if not W.acceptable(t) or len(t) > 3000 or re.search("fork|exec|quit|select|run", t):
        return r.choice(OPS)
    return t.replace("\0", "")


def run_heap(i):
    r = chk.rng("heap", i)
    how = r.choice(["file", "file", "prompt", "-e"])
    pieces = OPS[i:i + 1] if i < len(OPS) else [heap_piece(r, how) for _ in range(r.choice([1, 1, 2, 4]))]
    text = "\n".join(pieces)
    sizes = []
    for n in (3, 23, 43):
        with H.Scratch() as d:
            prep(d)
            open(os.path.join(d, "m.l"), "w").write("(def zz (x) x)\n" + "'(1 2 3)\n" * 20)
            open(os.path.join(d, "bad.l"), "w").write("(abc . d e)\n(fgh ^\x01)\n(abc \"x\" . \"d\" \"e\")\n5 )\n(abc (def\n")
            body = HEAP + "\n".join([text] * n) + "\nT\n"
            if len(body) > 100000 and how == "-e":
                how = "file"
            if how == "file":
                with open(os.path.join(d, "t.l"), "wb") as fh:
                    fh.write(body.encode("latin-1", "replace"))
                res = H.run(DEST["asan"], ["t.l"], cwd=d, timeout=30)
            elif how == "prompt":
                res = H.run(DEST["asan"], [], stdin=body.encode("latin-1", "replace"), cwd=d, timeout=30)
            else:
                res = H.run(DEST["asan"], ["-e", body.encode("latin-1", "replace")], cwd=d, timeout=30)
        if res.monitor() or res.timeout or res.stats is None or len(res.stats) < 5:
            return how, text, None
        sizes.append(res.stats[4])
        if len(sizes) == 2 and sizes[1] <= sizes[0]:
            break
    return how, text, sizes


for how, text, sizes in H.pmap(run_heap, range(chk.n(500, 8000))):
    if sizes is None:
        chk.inconclusive += 1
        continue
    chk.saw("heap " + text)
    chk.count("native_memory_series")
    if len(sizes) == 3 and sizes[2] > sizes[1]:
        chk.violation("native memory grows with the number of repetitions (%s)" % how,
                      "bytes allocated at exit after 3, 23 and 43 repetitions: %s" % sizes, text)
    if chk.too_many():
        break
for c in steady[:2]:
    chk.sample("\n".join(c[1]))
chk.sample("\n".join(script("misuse", 0)[:8]))
chk.finish(minimum=chk.n(5000, 50000))
