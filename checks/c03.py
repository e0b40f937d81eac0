#!/usr/bin/env python3
"""C03: evaluation follows the documented rules (differential against the model)."""
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import gen
import harness as H

chk = H.Check("C03")
chk.rule = ("random typed programs (definitions, lambdas, closures, let, control, currying, streams, mutation, "
            "library calls); non-trivial: the model gives it a meaning; distinct program texts counted")


def make(i):
    r = chk.rng(i)
    g = gen.G(r, "p%d" % (i % 40))
    return g.program(d=r.choice([2, 3, 4, 5]))


# ---- every form and native with any number of arguments, the arguments telling when they are evaluated

VALS = ["NIL", "NIL", "T", "T", "0", "1", "-7", "^a", "'sy", "'(1 2)", "'(1 . 2)", "\"ab\"", "'(NIL)", "'(3 (4) . x)", "_", "g1", "g2"]


class Forms:
    def __init__(self, r, i):
        self.r, self.k, self.fn = r, 0, "fn%d" % i

    def arg(self, d=1, vals=VALS):
        """An expression that prints when it is evaluated."""
        self.k += 1
        r = self.r
        if d and r.random() < 0.25:
            return self.form(d - 1)
        v = r.choice(vals)
        x = r.random()
        if x < 0.12:
            return v
        if x < 0.2:
            return "(setq g%d (tr %d %s))" % (r.randrange(1, 3), self.k, v)
        return "(tr %d %s)" % (self.k, v)

    def args(self, ns, d=1, vals=VALS):
        return "".join(" " + self.arg(d, vals) for _ in range(self.r.choice(ns)))

    def clauses(self, heads, d):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            h = r.choice(heads)
            out.append("(%s . %s)" % (h, self.arg(d)) if r.random() < 0.8 else "(%s)" % h)
        return "".join(" " + c for c in out)

    def form(self, d=1):
        r = self.r
        k = r.randrange(24)
        if k == 0:
            return "(if%s)" % self.args([1, 2, 3, 3, 4], d)
        if k == 1:
            return "(%s%s)" % (r.choice(["when", "unless"]), self.args([1, 1, 2, 3, 4], d))
        if k == 2:
            return "(prog%s)" % self.args([0, 1, 2, 3, 4], d)
        if k == 3:
            return "(list%s)" % self.args([0, 1, 2, 3, 4], d)
        if k == 4:
            return "(or%s)" % self.args([0, 1, 2, 2, 3], d)
        if k == 5:
            return "(and%s)" % self.args([1, 2, 2, 3], d)
        if k == 6:      # the condition counts down
            body = self.args([0, 0, 1, 2, 3], d)
            c = r.choice(["(> (setq w (- w 1)) 0)", "(prog (prin \"c\") (> (setq w (- w 1)) 0))", "(if (> w 0) (setq w (- w 1)))",
                          "(and (> (setq w (- w 1)) 0) (tr 'c T))"])
            return "(prog (setq w %d) (while %s%s))" % (r.choice([0, 1, 2, 4]), c, body)
        if k == 7:
            return "(let (%s)%s)" % (" ".join("(%s . %s)" % (r.choice(["p%d" % n, "(p%d . q%d)" % (n, n), "_", "(p%d)" % n]), self.arg(d))
                                              for n in range(r.choice([0, 1, 2, 3]))),
                                     self.args([0, 1, 2, 3], d, VALS + ["p0", "p1", "q0", "q1", "p2"]))
        if k == 8:
            return "(cond%s%s)" % (self.args([1], d), self.clauses(
                ["_", "nil?", "(= 1)", "(= 'sy)", "lst?", "num?", "(\\ (x) (prin \"p\") (nil? x))", "(\\ (x) x)", "(is 0)", "tru?", "not"], d))
        if k == 9:
            return "(match%s%s)" % (self.args([1], d), self.clauses(
                ["_", "NIL", "T", "1", "sy", "(1 2)", "(1 . 2)", "(_ . _)", "(1 . _)", "(_ _)", "^a", "(^a ^b)", "(_)", "-7", "(NIL)"], d))
        if k == 10:
            f = r.choice(["car", "cdr", "len", "nil?", "num?", "lst?", "atm?", "sym?", "chr?", "str?", "tru?", "not", "quote", "eval"])
            return "(%s%s)" % (f, self.args([0, 1, 1, 1, 1, 2, 3], d))
        if k == 11:
            f = r.choice(["cons", "=", "<>", "and"])
            return "(%s%s)" % (f, self.args([0, 1, 2, 2, 2, 3], d))
        if k == 12:
            f = r.choice(["+", "-", "*", "/", "%", "<", "<=", ">", ">="])
            return "(%s%s)" % (f, "".join(" (tr %d %d)" % (n, r.choice([0, 1, -7, 3, 100])) for n in range(r.choice([0, 1, 2, 2, 2, 3]))))
        if k == 13:
            return "(%s%s)" % (r.choice(["prin", "prinl", "print", "printl"]), self.args([0, 1, 1, 2, 3], d))
        if k == 14:
            return "(|>%s%s)" % (self.args([1], d), "".join(
                " " + r.choice(["car", "cdr", "nil?", "(cons 1)", "list", "not", "(tr 5)", "(cons (tr 6 7))", "(= (tr 8 NIL))", "(\\ (x) (prin \"s\") x)",
                                "lst?", "(\\ (x) NIL)"])
                for _ in range(r.choice([0, 1, 2, 3, 4]))))
        if k == 15:
            return "(setq%s%s)" % (r.choice([" g1", " g2"]), self.args([0, 1, 1, 2, 3], d))
        if k == 16:     # functions: their number of arguments and of expressions
            ps = r.choice(["()", "(x)", "(x y)", "(x . y)", "x", "(_ x)", "((x . y))", "((x y) _ . z)", "_"])
            if r.random() < 0.3:        # the same written as data
                b = self.args([1, 1, 2, 3], d, VALS + ["x", "y", "x"])[1:]
                f = ["'(%s NIL %s)", "(cons '%s (cons NIL '(%s)))"][ps != "_" and r.random() < 0.2]
                return "(%s%s)" % (f % (ps, b), self.args([0, 1, 2, 2, 3, 4], d))
            return "((\\ %s%s)%s)" % (ps, self.args([0, 1, 1, 2, 3], d, VALS + ["x", "y", "x"]), self.args([0, 1, 2, 2, 3, 4], d))
        if k == 17:
            return "(<- 'g%d%s)" % (r.choice([1, 2]), self.args([1], d))
        if k == 18:
            return "(conc (list%s) (list%s))" % (self.args([0, 1, 2, 3], d), self.args([0, 1, 2], d))
        if k == 19:
            return "(tr3%s)" % self.args([0, 1, 2, 3, 3, 4], d)
        if k == 20:
            return "(sym (str '%s))" % r.choice(["a", "abcdefghijklmno", "abcdefghijklmnop", "sy", "g1"])
        if k == 21:
            return "(def %s %s%s%s)" % (self.fn, r.choice(["()", "(x)", "x"]), r.choice(["", " \"a text\""]), self.args([0, 1, 2], d, VALS + ["x"]))
        if k == 22:
            return "(%s%s)" % (self.fn, self.args([0, 1, 1, 2], d))
        return "(%s%s)" % (r.choice(["5", "nosuch", "\"x\"", "NIL", "T", "g1"]), self.args([0, 1, 2], 0))


def make_forms(i):
    r = chk.rng("forms", i)
    f = Forms(r, i)
    out = ["(def tr (k v) (prin \"<\" k \">\") v)", "(def tr3 (a b c) (prin \"3\") (list a b c))", "(def is (n x) (prin \"i\") (= n x))",
           "(setq g1 %s)" % r.choice(VALS[2:11]), "(setq g2 %s)" % r.choice(VALS[2:11])]
    for _ in range(3):
        out.append(f.form(r.choice([0, 1, 1, 2, 3])))
    return out


forms = D.generate(chk, make_forms, chk.n(30000, 400000), lib=False)
chk.count("forms:cases", len(forms))
cases = D.generate(chk, make, chk.n(8000, 120000))
for c in cases[:3]:
    chk.sample("\n".join(c[1]) + "\n-- expected --\n" + c[2].decode("latin-1"))
D.run_batches(chk, cases, ["asan", "rel"])
D.run_batches(chk, forms, ["asan", "rel"], per=60, header="(load 'std 'logic 'math 'io)\n", leaks=True)


# ---- the clock: (time) and (time expr) against the system's clock

DEST = {v: chk.build(v) for v in ("asan", "rel")}
EXPRS = ["(spin 3)", "(spin 300)", "(spin 3000)", "(time (spin 50))", "NIL", "'(1 2 3)", "((\\ (x) (spin x)) 40)", "(time)",
         "(let ((q . 7)) (setq n (+ n q)) (setq n (- n q)))", "(|> 20 spin)", "(if T (spin 9))", "\"text\""]


def clock(i):
    r = chk.rng("clock", i)
    v = ("asan", "rel")[i % 2]
    e, k = r.choice(EXPRS), r.randrange(1, 90)
    rest = r.choice(["", "", " (setq n (+ n 1000))", " 5 6"])       # only the first is evaluated
    text = "\n".join(["(load 'std 'io 'math 'logic 'sys)", "(def spin (x) (if (> x 0) (spin (- x 1)) x))", "(setq n 0)",
                      "(setq z (time))",
                      "(setq t (time (prog (setq a (time)) %s (setq n (+ n 1)) (setq b (time)))%s))" % (e, rest),
                      "(setq c (time))",
                      "(def f (k) (time (setq n (+ n k))))", "(setq u (f %d))" % k,
                      "(printl z a b c t u n (num? t) (num? (time)))", "T"]) + "\n"
    before = time.clock_gettime_ns(time.CLOCK_MONOTONIC_RAW)
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "w") as fh:
            fh.write(text)
        res = H.run(DEST[v], ["-d", p], timeout=60)
    after = time.clock_gettime_ns(time.CLOCK_MONOTONIC_RAW)
    return v, text, k, before, after, res


for v, text, k, t0, t1, res in H.pmap(clock, range(chk.n(60, 1000))):
    chk.count("clock:programs")
    bad = res.monitor() or ("hang" if res.timeout else None) or (
        "cells not released" if res.rc != 0 or (res.stats and res.live() != 0) else None)
    if bad is None:
        w = res.out.split()
        try:
            z, a, b, c, t, u, n = [int(x) for x in w[:7]]
            if w[7:] != [b"T", b"T"]:
                bad = "not all are numbers"
            elif n != 1 + k:
                bad = "the expression given to time was not evaluated exactly once: n is %d, expected %d" % (n, 1 + k)
            elif not t0 <= z <= a <= b <= c <= t1:
                bad = "the times are not in order"
            elif not (b - a <= t <= c - z and 0 <= u <= t1 - c):
                bad = "the time an expression took is not between the bounds"
        except (ValueError, IndexError):
            bad = "unexpected output"
    if bad:
        chk.violation("clock: %s (%s build)" % (bad, v), text + "\n-- between %d and %d\n-- output --\n" % (t0, t1) + res.out.decode("latin-1"))
chk.finish(minimum=chk.n(500, 5000))
