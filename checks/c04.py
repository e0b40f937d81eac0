#!/usr/bin/env python3
"""C04: tail calls: bounded space, and the meaning of ordinary calls."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import harness as H
import model as M

chk = H.Check("C04")
chk.rule = ("(a) generated tail-recursive functions run at two depths, peak live cells compared and the C stack "
            "limited; result compared with the same recurrence computed in Python; (b) generated programs using "
            "recursive functions through aliases, partial applications, shadowing, redefinition and closures, "
            "compared with the model; non-trivial: distinct function texts")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
w = M.wrap64


# ---------------------------------------------------------------- (a) space
class Gen:
    """A tail-recursive function as Lisp text and as a Python step function."""

    def __init__(self, r, name, letbound):
        self.r = r
        self.name = name
        self.let = letbound
        self.params = ["n", "a", "b"][:r.choice([2, 2, 3])]
        self.shape = r.choice(["plain"] * 4 + ["rest", "wild", "pair" if len(self.params) == 3 else "rest"])

    def spell(self, args):
        """The arguments of a call, for the shape of the parameters."""
        r = self.r
        if self.shape == "pair":        # (n (a . b))
            return "%s (cons %s %s)" % tuple(args)
        args = list(args)
        if self.shape == "wild":        # (n _ a b)
            args.insert(1, r.choice(["n", "NIL", "(list n a)", "7", "'(1 2)"]))
        if self.shape == "rest":        # (n a b . r)
            args += [r.choice(["1", "NIL", "'(x)", "T"]) for _ in range(r.randrange(4))]
        return " ".join(args)

    def spelt(self):
        ps = list(self.params)
        if self.shape == "pair":
            return "n (a . b)"
        if self.shape == "wild":
            ps.insert(1, "_")
        return " ".join(ps) + (" . r" if self.shape == "rest" else "")

    def arith(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            x = r.choice(self.params + ["k"])
            if x == "k":
                c = r.randrange(-5, 20)
                return str(c), lambda e, c=c: c
            return x, lambda e, x=x: e[x]
        op = r.choice("++-*")
        (s1, f1), (s2, f2) = self.arith(d - 1), self.arith(d - 1)
        f = {"+": lambda e: w(f1(e) + f2(e)), "-": lambda e: w(f1(e) - f2(e)), "*": lambda e: w(f1(e) * f2(e))}[op]
        return "(%s %s %s)" % (op, s1, s2), f

    def test(self):
        (s1, f1), (s2, f2) = self.arith(1), self.arith(1)
        op = self.r.choice(["<", ">", "=", "<=", ">=", "<>"])
        f = {"<": lambda e: f1(e) < f2(e), ">": lambda e: f1(e) > f2(e), "=": lambda e: f1(e) == f2(e),
             "<=": lambda e: f1(e) <= f2(e), ">=": lambda e: f1(e) >= f2(e), "<>": lambda e: f1(e) != f2(e)}[op]
        return "(%s %s %s)" % (op, s1, s2), f

    def call(self):
        parts = [("(- n 1)", lambda e: e["n"] - 1)] + [self.arith(2) for _ in self.params[1:]]
        fs = [f for _, f in parts]
        return "(%s %s)" % (self.name, self.spell([s for s, _ in parts])), \
            lambda e: dict(zip(self.params, [f(e) for f in fs]))

    def effects(self, most):
        """Expressions whose value is not used."""
        r = self.r
        effs = ["(+ a 1)", "(<- 'a a)", "(list n a)", "NIL", "(car NIL)", "a", "(if (< n 0) a)",
                "((\\ (x y) (cons x y)) a n)", "(when (< n -5) (%s 1 NIL))" % self.name]
        return "".join(r.choice(effs) + " " for _ in range(r.randrange(most + 1)))

    def dead(self, kind):
        """Clauses which are not taken: the subject is a number, for match less than 99."""
        r = self.r
        heads = {"match": ["'none", "99", "\"s\"", "(x y)", "(1 . _)", "NIL", "T"],
                 "cond": ["sym?", "lst?", "chr?", "nil?", "(\\ (z) (sym? z))"]}[kind]
        bodies = ["'z", "(%s n n)" % self.name, "(prog 1 2)", "NIL", "(car n)"]
        return "".join("(%s . %s) " % (r.choice(heads), r.choice(bodies)) for _ in range(r.choice([0, 0, 1, 2])))

    def late(self):
        """Clauses after the one which takes everything."""
        return self.r.choice(["", "", " (_ . 'late)", " (2 . a) (_ . n)"])

    def tail(self, d):
        """Text and a function env -> next env."""
        r = self.r
        k = r.randrange(8) if d > 0 else 0
        if k <= 1:
            return self.call()
        if k == 2:
            ts, tf = self.test()
            (s1, f1), (s2, f2) = self.tail(d - 1), self.tail(d - 1)
            return "(if %s %s %s)" % (ts, s1, s2), lambda e: f1(e) if tf(e) else f2(e)
        if k == 3:
            s, f = self.tail(d - 1)
            return "(prog %s%s)" % (self.effects(3), s), f
        if k == 4:
            vs, vf = self.arith(1)
            c = r.randrange(-3, 9)
            op = r.choice(["<", ">", "="])
            (s1, f1), (s2, f2) = self.tail(d - 1), self.tail(d - 1)
            tf = {"<": lambda e: c < vf(e), ">": lambda e: c > vf(e), "=": lambda e: c == vf(e)}[op]
            return "(cond %s %s((%s %d) . %s) %s(_ . %s)%s)" % (
                vs, self.dead("cond"), op, c, s1, self.dead("cond"), s2, self.late()), \
                lambda e: f1(e) if tf(e) else f2(e)
        if k == 5:
            m = r.choice([2, 3, 5])
            c = r.randrange(m)
            (s1, f1), (s2, f2) = self.tail(d - 1), self.tail(d - 1)
            return "(match (%% n %d) %s(%d . %s) %s(_ . %s)%s)" % (
                m, self.dead("match"), c, s1, self.dead("match"), s2, self.late()), \
                lambda e: f1(e) if e["n"] % m == c else f2(e)
        s, f = self.tail(d - 1)
        if k == 6:
            return "(when %s %s%s)" % (r.choice(["T", "(> n 0)", "n"]), self.effects(3), s), f
        return "(unless %s %s%s)" % (r.choice(["NIL", "(<= n 0)", "(nil? n)"]), self.effects(3), s), f

    def make(self):
        r = self.r
        self.shape, shape = "plain" if self.shape == "wild" else self.shape, self.shape
        self.first = self.spell(["%d", "1", "2"][:len(self.params)])
        self.shape = shape
        if shape == "wild":
            self.first = self.first.replace("%d", "%d 7", 1)
        s, self.step = self.tail(r.choice([0, 1, 2, 3]))
        res = r.choice(self.params[1:])
        self.res = res
        k = r.randrange(4)
        if k == 0:
            body = "(if (<= n 0) %s %s)" % (res, s)
        elif k == 1:
            body = "(if (> n 0) %s %s)" % (s, res)
        elif k == 2:
            body = "(cond n ((>= 0) . %s) (_ . %s))" % (res, s)
        else:
            body = "(match n (0 . %s) (_ . %s))" % (res, s)
        pre = r.choice(["", "", "\"doc\" ", "(+ n 1) ", self.effects(3)])
        if self.let and "doc" in pre:
            pre = ""
        self.text = pre + body
        return self

    def program(self, depth):
        args = self.first % depth
        ps = self.spelt()
        if self.let:
            r = self.r
            others = ["(z1 . 5)", "(z1 . (\\ (q) (z9 q)))", "((z2 . z3) . '(1 2))", "(_ . 7)"]
            if not hasattr(self, "others"):
                self.others = ["".join(" " + r.choice(others) if r.random() < 0.35 else "" for _ in range(2)) for _ in range(2)]
            before, after = self.others
            return "(printl (let (%s (%s . (\\ (%s) %s))%s) (%s %s)))" % (before, self.name, ps, self.text, after, self.name, args)
        return "(def %s (%s) %s)\n(printl (%s %s))" % (self.name, ps, self.text, self.name, args)

    def value(self, depth):
        e = dict(zip(self.params, [depth, 1, 2]))
        while e["n"] > 0:
            e = self.step(e)
        return e[self.res]


HEAD = "(load 'std 'logic 'math 'io)\n"
LOW, HIGH = 400, chk.n(12000, 60000)


def space(i):
    r = chk.rng("space", i)
    g = Gen(r, "fn%d" % (i % 7), i % 3 == 0).make()
    variant = "rel" if i % 2 else "asan"
    res = []
    with H.Scratch() as d:
        for depth in (LOW, HIGH):
            p = os.path.join(d, "t.l")
            with open(p, "w") as fh:
                fh.write(HEAD + g.program(depth) + "\nT\n")
            res.append(H.run(DEST[variant], ["-d", p], cwd=d, timeout=120, stack_kb=1024))
    return i, variant, g, res, [g.value(LOW), g.value(HIGH)]


for i, variant, g, (lo, hi), vals in H.pmap(space, range(chk.n(240, 2500))):
    text = g.program(HIGH)
    chk.saw(text)
    chk.count("functions:%s:%s" % ("let" if g.let else "def", g.shape))
    for r, v, depth in ((lo, vals[0], LOW), (hi, vals[1], HIGH)):
        if r.monitor() or r.timeout:
            chk.violation("tail recursion at depth %d: %s" % (depth, r.monitor() or "hang"),
                          r.err[-2500:].decode("latin-1"), HEAD + g.program(depth))
            break
        if r.out.strip() != b"%d" % v:
            chk.violation("wrong result at depth %d" % depth, "expected %d got %r" % (v, r.out[:200]),
                          HEAD + g.program(depth))
            break
    else:
        if lo.stats and hi.stats:
            chk.count("peak_cells_compared")
            chk.count("calls_run", LOW + HIGH)
            if hi.stats[2] - lo.stats[2] > 200:
                chk.violation("live cells grow with the depth of a tail recursion",
                              "peak %d cells at depth %d, %d at depth %d" % (lo.stats[2], LOW, hi.stats[2], HIGH),
                              HEAD + text)
    if chk.too_many():
        break
    if i < 2:
        chk.sample(text)


# ---------------------------------------------------------------- (b) meaning
class Sem:
    """Programs around recursive functions whose recursive call is sometimes a
    tail call, reached in every way a call can be reached."""

    def __init__(self, r, p):
        self.r, self.p, self.k = r, p, 0

    def nm(self, b):
        self.k += 1
        return "%s:%s%d" % (self.p, b, self.k)

    def atom(self, vs):
        return self.r.choice(vs + [str(self.r.randrange(-3, 12))])

    def num(self, vs, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.35:
            return self.atom(vs)
        return "(%s %s %s)" % (r.choice("+-*"), self.num(vs, d - 1), self.num(vs, d - 1))

    def recur(self, f, vs, alias):
        """A call of f with n-1."""
        r = self.r
        a = self.num(vs)
        fn = r.choice([f, f, f, alias or f])
        return r.choice(["(%s (- n 1) %s)"] * 4 + ["((%s (- n 1)) %s)"]) % (fn, a)

    def tail(self, f, vs, d, alias=None):
        r = self.r
        k = r.randrange(16) if d > 0 else r.randrange(2)
        t = lambda: self.tail(f, vs, d - 1, alias)
        c = lambda: "(%s %s %s)" % (r.choice(["<", ">", "=", "<=", "<>"]), self.num(vs, 1), self.num(vs, 1))
        if k <= 1:
            return self.recur(f, vs, alias)
        if k == 2:
            return "(if %s %s %s)" % (c(), t(), t())
        if k == 3:
            return "(prog (prin \"%s\" %s) %s)" % (r.choice("xyz"), self.num(vs, 1), t())
        if k == 4:
            return "(cond %s ((%s %d) . %s) (_ . %s))" % (self.num(vs, 1), r.choice("<>="), r.randrange(5), t(), t())
        if k == 5:
            return "(match (%% n 3) (%d . %s) (_ . %s))" % (r.randrange(3), t(), t())
        if k == 6:
            return "(%s %s %s %s)" % (r.choice(["when", "unless"]), c(), self.num(vs, 1), t())
        if k == 7:                  # not a tail call
            return "(%s %s %s)" % (r.choice("+-"), self.num(vs, 1), t())
        if k == 8:
            return "(let ((v . %s)) %s)" % (self.num(vs, 1), self.tail(f, vs + ["v"], d - 1, alias))
        if k == 9:                  # call inside a closure called at once
            return "((\\ (z) %s) %s)" % (self.tail(f, vs + ["z"], d - 1, alias), self.num(vs, 1))
        if k == 10:                 # alias by let
            return "(let ((g . %s)) (g (- n 1) %s))" % (f, self.num(vs, 1))
        if k == 11:                 # higher-order
            return "(foldl (\\ (x y) (+ x (%s (- n 1) y))) %s (list 1 2))" % (f, self.num(vs, 1))
        if k == 12:
            return "(|> %s (\\ (q) (%s (- n 1) q)))" % (self.num(vs, 1), f)
        if k == 13:
            return "(|> %s (%s (- n 1)))" % (self.num(vs, 1), f)
        if k == 14:
            return "(eval '(%s (- n 1) %s))" % (f, self.num(vs, 1))
        return "(car (list %s 0))" % t()

    def define(self, f, alias=None):
        r = self.r
        body = self.tail(f, ["n", "a"], r.choice([1, 2, 3]), alias)
        base = self.num(["n", "a"], 1)
        form = "(if (<= n 0) %s %s)" % (base, body) if r.random() < 0.7 else "(cond n ((>= 0) . %s) (_ . %s))" % (base, body)
        pre = r.choice(["", "(prin n \",\") ", "(<- '%s:g (+ %s:g 1)) " % (self.p, self.p)])
        return "(n a)", pre + form

    def program(self):
        r = self.r
        out = ["(setq %s:g 1)" % self.p]
        f = self.nm("f")
        alias = self.nm("al") if r.random() < 0.4 else None
        ps, body = self.define(f, alias)
        out.append("(def %s %s %s)" % (f, ps, body))
        if alias:
            out.append("(prog (setq %s %s) 1)" % (alias, f))
        n = lambda: str(r.randrange(0, 6))
        k = lambda: str(r.randrange(-5, 9))
        uses = ["(%s %s %s)" % (f, n(), k()), "((%s %s) %s)" % (f, n(), k()),
                "(map (%s %s) (list 1 2 3))" % (f, n()),
                "(map (\\ (x) (%s x %s)) (list 0 1 2 3))" % (f, k()),
                "(let ((h . %s)) (list (h %s %s) (%s %s %s)))" % (f, n(), k(), f, n(), k()),
                "(let ((h . (%s %s))) (list (h 1) (h 2) (h 1)))" % (f, n()),
                "((\\ (h n a) (h n a)) %s %s %s)" % (f, n(), k()),
                "(let ((n . 100) (a . 7)) (+ n (%s %s %s)))" % (f, n(), k()),
                "(|> %s (%s %s))" % (k(), f, n()),
                "(list (%s %s %s) %s:g)" % (f, n(), k(), self.p),
                "(if (%s %s %s) 1 2)" % (f, n(), k()),
                "(= (%s %s %s) (%s %s %s))" % (f, n(), k(), f, n(), k())]
        for _ in range(r.randrange(2, 6)):
            out.append(r.choice(uses))
        # let-bound recursion, possibly of the same name
        loc = r.choice(["loop", f, "n"])
        if loc != "n":
            ps, body = self.define(loc)
            out.append("(let ((%s . (\\ %s %s))) (list (%s %s %s) (%s %s %s)))" % (
                loc, ps, body, loc, n(), k(), loc, n(), k()))
        # redefinition, with the old one kept under another name
        if r.random() < 0.6:
            old = self.nm("o")
            out.append("(prog (setq %s %s) 1)" % (old, f))
            ps, body = self.define(f, old)
            out.append("(def %s %s %s)" % (f, ps, body))
            out.append("(list (%s %s %s) (%s %s %s))" % (f, n(), k(), old, n(), k()))
        # closures made in the iterations
        c = self.nm("c")
        out.append("(def %s (n acc) (if (<= n 0) (map (\\ (t) (t %s)) acc) (%s (- n 1) (cons (\\ (x) (+ (* n 10) x)) acc))))"
                   % (c, k(), c))
        out.append("(%s %s NIL)" % (c, n()))
        # state per iteration
        s = self.nm("s")
        out.append("(def %s (n a) (<- 'a (+ a n)) (if (> n 0) (%s (- n 1) a) (list n a)))" % (s, s))
        out.append("(let ((a . 50)) (list (%s %s a) a))" % (s, n()))
        # mutual recursion
        e, o = self.nm("e"), self.nm("od")
        out.append("(def %s (n) (if (<= n 0) 'even (%s (- n 1))))" % (e, o))
        out.append("(def %s (n) (if (<= n 0) 'odd (%s (- n 1))))" % (o, e))
        out.append("(list (%s %s) (%s %s))" % (e, n(), o, n()))
        return out


def make(i):
    r = chk.rng("sem", i)
    return Sem(r, "t%d" % (i % 40)).program()


cases = D.generate(chk, make, chk.n(6000, 80000))
chk.sample("\n".join(cases[0][1]))
D.run_batches(chk, cases, ["asan", "rel"], leaks=True)
chk.finish(minimum=chk.n(1000, 10000))
