#!/usr/bin/env python3
"""C19: only conc and <- modify existing values, and exactly the value they name."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import harness as H
import model as M

chk = H.Check("C19")
chk.rule = ("(A) histories over holders that share structure (globals, tails, elements, closures, partial applications, "
            "constants of function bodies): every operation is followed by the values of all the holders, compared "
            "with a model that has the same sharing; (B) programs of nested scopes, closures sharing a binding, "
            "partial applications and recursion that assign the same few names, against the model; (C) every native "
            "and library function called on aliased holders, which are printed before and after; distinct cases counted")
FILES = ("append args aton dedup erase filter flatten has insert isort iter iter2 iterators join last manips merge "
         "ntoa orelse replc rev split strlt term trim truncr").split()
HEAD = "(load 'std 'logic 'math 'io %s)\n" % " ".join('"@lib/%s.l"' % f for f in FILES)
NIL = M.NIL


# ---------------------------------------------------------------- A: shared structure

def lit(r, d=2):
    """The text of a datum with some structure."""
    n = r.choice([1, 1, 2, 3, 4])
    xs = []
    for _ in range(n):
        x = r.random()
        if d and x < 0.3:
            xs.append(lit(r, d - 1))
        else:
            xs.append(r.choice(["%d" % r.randrange(10), "k%d" % r.randrange(4), "^%s" % r.choice("abc"), "NIL", "T",
                                "\"s%s\"" % r.choice("xy")]))
    if r.random() < 0.12:
        return "(%s . %d)" % (" ".join(xs), r.randrange(10))
    return "(%s)" % " ".join(xs)


def proper(x):
    while isinstance(x, M.Pair):
        x = x.cdr
    return x is NIL


class History:
    def __init__(self, r, i):
        self.r = r
        self.p = "h%d:" % i
        self.hs = [self.p + c for c in "abcdef"]
        self.ks = []        # closures and partials of one argument that return a list
        self.cs = []        # functions without arguments returning a constant
        self.it = M.Interp(200000)
        self.it.library()
        self.exprs = []
        self.tried = 0

    def do(self, text):
        """Run it in the model; keep it when it has a meaning."""
        self.tried += 1
        try:
            mark = len(self.it.out)
            v = self.it.top(M.read_all(text)[0])
            if v is None:
                raise M.Unsupported("")
            M.show_clos(v) if not isinstance(v, M.Pair) else None
        except (M.Unsupported, RecursionError):
            del self.it.out[mark:]
            return False
        self.exprs.append(text)
        return True

    def val(self, name):
        b = self.it.globals.get(name)
        return b.v if b is not None else NIL

    def h(self):
        return self.r.choice(self.hs)

    def holder(self):
        """An expression whose value is (part of) a holder."""
        r = self.r
        h = self.h()
        x = r.random()
        if x < 0.5:
            return h
        if x < 0.65:
            return "(cdr %s)" % h
        if x < 0.72:
            return "(car %s)" % h
        if x < 0.78:
            return "(cdr (cdr %s))" % h
        if x < 0.84:
            return "(if (= 1 1) %s NIL)" % h
        if x < 0.9:
            return "(let ((v . %s)) v)" % h
        if x < 0.95:
            return "((\\ ((a . b)) b) %s)" % h
        return "(match %s ((_ x) x) (_ %s))" % (h, self.h())

    def fresh(self):
        r = self.r
        x = r.random()
        e = r.choice(["%d" % r.randrange(100), "'k%d" % r.randrange(4), self.holder(), self.holder()])
        if x < 0.2:
            return "'" + lit(r)
        if x < 0.45:
            return "(cons %s %s)" % (e, self.holder())
        if x < 0.6:
            return "(list %s %s)" % (e, self.holder())
        if x < 0.7:
            return "((\\ (x y) (cons x y)) %s %s)" % (e, self.holder())
        if x < 0.8 and self.cs:
            return "(%s)" % r.choice(self.cs)
        if x < 0.88 and self.ks:
            return "(%s %s)" % (r.choice(self.ks), e)
        return self.holder()

    def step(self, k):
        r = self.r
        x = r.random()
        if x < 0.26:
            self.do("(setq %s %s)" % (self.h(), self.fresh()))
        elif x < 0.5:
            a, b = self.holder(), self.r.choice([self.holder(), "'" + lit(r, 1), "(list %d)" % r.randrange(10), "5"])
            self.do(r.choice(["(conc %s %s)", "(conc %s %s)", "((conc %s) %s)", "((\\ (p q) (conc p q)) %s %s)",
                              "(let ((p . %s) (q . %s)) (conc p q))", "(let ((p . %s)) (conc p %s) 1)"]) % (a, b))
        elif x < 0.58:
            self.do("(<- '%s %s)" % (self.h(), self.fresh()))
        elif x < 0.66:
            n = self.p + "k%d" % k
            e = self.holder()
            t = r.choice(["(setq %s (let ((v . %s)) (\\ (y) (conc v (list y)))))",
                          "(setq %s (let ((v . %s)) (\\ (y) (cons y v))))",
                          "(setq %s ((\\ (v y) (cons y v)) %s))",
                          "(setq %s (let ((v . %s)) (\\ (y) (let ((o . v)) (<- 'v (cons y v)) o))))",
                          "(setq %s (let ((v . %s)) (\\ (y) v)))",
                          "(setq %s ((\\ (v y) (conc v (list y 7))) %s))",
                          "(setq %s (conc %s))", "(setq %s (cons %s))"]) % (n, e)
            if self.do("(prog %s 1)" % t):
                self.ks.append(n)
        elif x < 0.72:
            n = self.p + "c%d" % k
            if self.do("(def %s () '%s)" % (n, lit(r, 1))):
                self.cs.append(n)
        elif x < 0.84 and self.ks:
            self.do("(%s %s)" % (r.choice(self.ks), r.choice(["%d" % r.randrange(10), self.holder(), "'(8)"])))
        elif x < 0.9 and self.cs:
            self.do("(conc (%s) %s)" % (r.choice(self.cs), r.choice(["'(4)", self.holder(), "3"])))
        elif x < 0.95:
            e = self.h()
            if not proper(self.val(e)):
                return
            self.do(r.choice(["(append %s '(1))", "(rev %s)", "(map (\\ (x) x) %s)", "(len %s)", "(= %s '(1 2))",
                              "(foldl (\\ (a x) (cons x a)) NIL %s)", "(filter nil? %s)", "(has %s 1)",
                              "(map (cons 1) %s)"]) % e)
        else:
            self.do("(let ((v . %s)) (<- 'v %s) (<- '%s v) (list v))" % (self.holder(), self.fresh(), self.h()))

    def small(self):
        """Keep what is printed within reason."""
        for n in self.hs:
            try:
                M.SPENT[0] = 0
                ok = len(M.show(self.val(n))) < 400
            except M.Unsupported:
                ok = False
            if not ok:
                if not self.do("(setq %s '%s)" % (n, lit(self.r, 0))):
                    return False
        return True

    def run(self, n):
        for h in self.hs:
            self.do("(setq %s %s)" % (h, "'" + lit(self.r) if self.r.random() < 0.6 or h.endswith("a") else
                                      "(cons %d %s)" % (self.r.randrange(9), self.r.choice(
                                          self.hs[:self.hs.index(h)]))))
        for k in range(n):
            self.step(k)
            if not self.small():
                break
            self.do("(list %s)" % " ".join(self.hs))
        if self.cs:
            self.do("(list %s)" % " ".join("(%s)" % c for c in self.cs))
        return self.exprs


def make_a(i):
    r = chk.rng("A", i)
    return History(r, i).run(r.choice([6, 12, 25]))


# ---------------------------------------------------------------- B: assignments in scopes

class Scopes:
    """Expressions that give numbers and assign a few names."""

    def __init__(self, r, i):
        self.r = r
        self.p = "s%d:" % i
        self.names = ["a", "b", "c"]
        self.g = [self.p + "x", self.p + "y"]       # always bound globals
        self.un = self.p + "none"

    def name(self, env):
        r = self.r
        return r.choice(env) if env and r.random() < 0.75 else r.choice(self.g)

    def s(self, env, fs, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.12:
            return self.name(env) if r.random() < 0.7 else str(r.randrange(20))
        if x < 0.24:
            return "(+ %s %s)" % (self.s(env, fs, d - 1), self.s(env, fs, d - 1))
        if x < 0.42:
            return "(<- '%s %s)" % (self.name(env), self.s(env, fs, d - 1))
        if x < 0.45:
            return "(prog (<- '%s %s) %s)" % (self.un, self.s(env, fs, d - 1), self.s(env, fs, d - 1))
        if x < 0.62:
            ns = r.sample(self.names, r.choice([1, 1, 2]))
            out, e = [], list(env)
            for n in ns:
                out.append("(%s . %s)" % (n, self.s(e, fs, d - 1)))
                e.append(n)
            body = " ".join(self.s(e, fs, d - 1) for _ in range(r.choice([1, 2, 3])))
            return "(let (%s) %s)" % (" ".join(out), body)
        if x < 0.72:
            n = r.choice(self.names)
            body = " ".join(self.s(env + [n], fs, d - 1) for _ in range(r.choice([1, 2])))
            return "((\\ (%s) %s) %s)" % (n, body, self.s(env, fs, d - 1))
        if x < 0.82:
            f = r.choice(["f", "g"])
            n = r.choice(self.names)
            fun = "(\\ (%s) %s)" % (n, " ".join(self.s(env + [n], [], d - 2) for _ in range(r.choice([1, 2]))))
            body = " ".join(self.s(env, fs + [f], d - 1) for _ in range(r.choice([2, 3])))
            return "(let ((%s . %s)) %s)" % (f, fun, body)
        if x < 0.92 and fs:
            return "(%s %s)" % (r.choice(fs), self.s(env, fs, d - 1))
        if x < 0.96:
            return "(if (< %s 10) %s %s)" % tuple(self.s(env, fs, d - 1) for _ in range(3))
        return "(prog %s %s)" % (self.s(env, fs, d - 1), self.s(env, fs, d - 1))

    def objects(self, k):
        """Closures that share a binding, several instances of them, partial applications, recursion."""
        r = self.r
        p = self.p
        out = []
        mk = p + "mk%d" % k
        n = r.choice(self.names)
        m = r.choice([x for x in self.names if x != n])
        s = lambda env, d=2: self.s(env, [], d)
        shape = r.choice(["let", "param", "two", "partial", "rec", "nest", "list"])
        if shape == "let":
            out.append("(def %s (i) (let ((%s . i)) (list (\\ () %s) (\\ (v) (<- '%s v)) (\\ (v) (<- '%s (+ %s v)) %s))))"
                       % (mk, n, n, n, n, n, s([n])))
        elif shape == "param":
            out.append("(def %s (%s) (list (\\ () %s) (\\ (v) (<- '%s v) %s) (\\ (%s) (<- '%s 1) %s)))"
                       % (mk, n, n, n, n, n, n, n))
        elif shape == "two":
            out.append("(def %s (i) (let ((%s . i) (%s . 5)) (list (\\ () (+ %s %s)) (\\ (v) (<- '%s v) %s) "
                       "(\\ (v) (<- '%s v) %s))))" % (mk, n, m, n, m, n, s([n, m]), m, s([n, m])))
        elif shape == "nest":
            out.append("(def %s (i) (let ((%s . i)) (list (\\ () %s) (let ((%s . 50)) (\\ (v) (<- '%s (+ %s v)) %s)) "
                       "(\\ (v) (<- '%s v) %s))))" % (mk, n, n, n, n, n, n, n, n))
        elif shape == "list":
            out.append("(def %s (i) ((\\ (%s %s) (list (\\ () %s) (\\ (v) (<- '%s v) (+ %s %s)) (\\ (v) (<- '%s v)))) i 3))"
                       % (mk, n, m, n, n, n, m, m))
        elif shape == "partial":
            f = p + "pf%d" % k
            out.append("(def %s (%s %s) (<- '%s (+ %s %s)) %s)" % (f, n, m, r.choice([n, m]), n, m, s([n, m])))
            q = p + "q%d" % k
            out.append("(prog (setq %s (%s %d)) 1)" % (q, f, r.randrange(10)))
            for _ in range(r.choice([2, 4])):
                out.append(r.choice(["(%s %d)" % (q, r.randrange(10)), "(%s %d %d)" % (f, r.randrange(9), r.randrange(9)),
                                     "((%s 1) 2)" % f]))
            return out
        else:
            f = p + "rf%d" % k
            body = r.choice(["(prog (<- 'A (+ A N)) (F A (- N 1)))", "(prog (<- 'A (+ A N)) (<- 'N (- N 1)) (F A N))",
                             "(+ (F (+ A 1) (- N 1)) (<- 'A (+ A 1)))", "(let ((t . A)) (<- 'A (* 2 N)) (+ t (F A (- N 1))))",
                             "(prog (let ((A . 7)) (<- 'A 9)) (F (+ A 1) (- N 1)))",
                             "(+ (let ((z . (F A (- N 1)))) (<- 'N (+ N 1)) z) N)",
                             "(when T (<- 'G (+ G N)) (F (+ A G) (- N 1)))"])
            body = body.replace("A", n).replace("N", m).replace("F", f).replace("G", self.g[0])
            out.append("(def %s (%s %s) (if (<= %s 0) %s %s))" % (f, n, m, m, n, body))
            for _ in range(r.choice([1, 2])):
                out.append("(%s %d %d)" % (f, r.randrange(10), r.choice([0, 1, 3, 6])))
            return out
        objs = []
        for j in range(r.choice([1, 2, 3])):
            o = p + "o%d%d" % (k, j)
            out.append("(setq %s (%s %d))" % (o, mk, r.randrange(50)))
            out[-1] = "(prog %s 1)" % out[-1]
            objs.append(o)
        for _ in range(r.choice([4, 8, 12])):
            o = r.choice(objs)
            x = r.random()
            if x < 0.4:
                out.append("((car %s))" % o)
            else:
                sel = r.choice(["(car (cdr %s))", "(car (cdr (cdr %s)))"]) % o
                out.append("(%s %d)" % (sel, r.randrange(100)))
        out.append("(list %s)" % " ".join("((car %s))" % o for o in objs))
        return out

    def run(self):
        r = self.r
        out = ["(setq %s %d)" % (g, r.randrange(1, 30)) for g in self.g]
        for k in range(r.choice([2, 4, 6])):
            if r.random() < 0.5:
                out += self.objects(k)
            else:
                out.append(self.s([], [], r.choice([3, 4, 5, 6])))
            out.append("(list %s %s)" % (" ".join(self.g), self.un))
        return out


def make_b(i):
    r = chk.rng("B", i)
    return Scopes(r, i).run()


na, nb = chk.n(4000, 60000), chk.n(5000, 80000)
for part, make, n in (("A", make_a, na), ("B", make_b, nb)):
    cases = D.generate(chk, make, n, steps=200000)
    chk.count("histories:" + part, len(cases))
    chk.count("operations:" + part, sum(len(c[1]) for c in cases))
    chk.count("concs:" + part, sum(t.count("(conc ") for c in cases for t in c[1]))
    chk.count("assignments:" + part, sum(t.count("(<- ") for c in cases for t in c[1]))
    for k in (3, 30):
        if k < len(cases):
            chk.sample("\n".join(cases[k][1])[:1200])
    D.run_batches(chk, cases, ("asan", "rel"), per=25, header=HEAD, timeout=60)


# ---------------------------------------------------------------- C: nothing else modifies its arguments

# kinds: l list of numbers, L any list, s string, a association list, n number, y symbol, e element, f/g/c functions of
# one and two arguments and orders, t list of strings, C a character, S an option schema
CALLS = """
(car L) (cdr L) (cons e L) (list L L e) (len L) (= L L) (<> L L) (nil? L) (lst? L) (str? s) (sym s) (str y) (sym? L)
(atm? L) (not L) (and L L) (or L L) (if L L L) (when L L L) (unless L L L) (cond L (nil? 1) (lst? L)) (prog L L)
(match L ((_ x) x) (_ L)) (let ((v . L)) v) (let (((v w) . L)) (list v w)) (|> L cdr car) (eval (list 'cdr (list 'car l)))
(print L) (prin L) (printl L) (prinl s) (quote . L) ((\\ (x . z) z) L L) ((\\ ((x w) z) (list x w z)) L L)
(append L L) (append L L L) (append L) ($+ s s) (aton s) (dedup = l) (dedup c l) (erase e a) (filter f L) (filter p l)
(flatten L) (has L e) (insert c n l) (isort c l) (iter f L) (iter2 g L L) (foldl g NIL L) (foldl g L L) (foldr g L NIL)
(foldr g L L) (map f L) (map2 g L L) (zip L L) (join t C) (last L) (assoc y a) (caar a) (cddr L) (cadar a) (caddr L)
(cadddr L) (cadr L) (cdar a) (rep n L) (truncl n L) (truncr n L) (merge (dedup =) (insert c) l l) (ntoa n) (<|> L L)
(replc y L a) (rev L) (split s C) (strlt s s) (term:left n s) (term:right n s) (term:esc 1 s) (triml s) (trimr s) (trim s)
(args:parse S t) (map (cons e) L) (map (\\ (x) (append L x)) (list L L)) (foldl append L (list L L)) (map rev (list L L))
(map2 cons L L) (isort strlt t) (map (foldl g NIL) (list L L)) (rev (rev L)) (append (rev L) L) (zip L (cdr L))
""".strip()
KINDS = {"l": "ln", "L": "lnasxt", "s": "s", "a": "a", "t": "t"}


def split_calls(t):
    return [x.strip() for x in M_split(t)]


def M_split(t):
    out, d, cur = [], 0, ""
    for ch in t:
        cur += ch
        d += (ch == "(") - (ch == ")")
        if d == 0 and cur.strip():
            out.append(cur)
            cur = ""
        elif d == 0:
            cur = ""
    return out


TEMPL = split_calls(CALLS)
HOLD = {"l": ["c:l1", "c:l2", "c:l3"], "s": ["c:s1", "c:s2"], "a": ["c:a1", "c:a2"], "t": ["c:t1"],
        "x": ["c:x1", "c:x2"]}
ALL = sum((HOLD[k] for k in "lsatx"), [])


def token_swap(r, t):
    import re

    def sub(m):
        w = m.group(0)
        if w == "L":
            return r.choice(HOLD[r.choice("lsatxx")])
        if w in ("l", "s", "a", "t"):
            return r.choice(HOLD[w])
        if w == "n":
            return r.choice(["0", "1", "2", "3", "7"])
        if w == "e":
            return r.choice(["1", "'k1", "NIL", "c:l1", "c:x1", "\"e\""])
        if w == "y":
            return r.choice(["'k0", "'k1", "'k2", "'zz"])
        if w == "f":
            return r.choice(["(\\ (x) x)", "(\\ (x) (cons x c:x1))", "nil?", "(\\ (x) (list x x))", "(cons 1)"])
        if w == "p":
            return r.choice(["(\\ (x) (> x 3))", "num?", "(\\ (x) (= x 1))"])
        if w == "g":
            return r.choice(["cons", "(\\ (x y) x)", "(\\ (x y) y)", "(\\ (x y) (list x y))"])
        if w == "c":
            return r.choice(["<", ">"])
        if w == "C":
            return r.choice(["^,", "^a", "^ "])
        if w == "S":
            return r.choice(["'((opt k0 \"-a\") (opt k1 \"-b\"))"]) if False else "NIL"
        return w
    return re.sub(r"(?<![\w:'^\"$\\?<>-])[lLsatneyfgcpCS](?![\w:'^\"$?<>-])", sub, t)


def setup(r):
    num = lambda n: "(%s)" % " ".join(str(r.randrange(8)) for _ in range(n))
    st = lambda: "\"%s\"" % "".join(r.choice("ab, x1") for _ in range(r.choice([1, 3, 6])))
    return ["(setq c:l1 '%s)" % num(r.choice([1, 2, 5, 9])),
            "(setq c:l2 %s)" % r.choice(["(cons 3 c:l1)", "(cdr '(9 1 2 3))", "(cdr (cons 1 c:l1))", "'" + num(4)]),
            "(setq c:l3 %s)" % r.choice(["c:l1", "(cons 1 c:l2)", "'" + num(6)]),
            "(setq c:s1 %s)" % st(), "(setq c:s2 %s)" % r.choice(["(cons ^a c:s1)", "c:s1", st()]),
            "(setq c:a1 (list (cons 'k0 c:l1) (cons 'k1 c:l2) (cons 'k2 7)))",
            "(setq c:a2 %s)" % r.choice(["(cons (cons 'k1 c:s1) c:a1)", "(cdr c:a1)", "c:a1"]),
            "(setq c:t1 (list c:s1 c:s2 %s))" % st(),
            "(setq c:x1 %s)" % r.choice(["(list c:l1 c:l1 c:s1)", "(cons c:l2 c:l3)", "(list (list c:l1) (list c:l2) 1)"]),
            "(setq c:x2 %s)" % r.choice(["(cons c:x1 c:x1)", "(cdr c:x1)", "(list c:x1 c:a1)", "c:x1"]),
            "(setq c:res '(0))", "(setq c:old '(0))"]


def program(i):
    r = chk.rng("C", i)
    out = setup(r)
    calls = []
    seen = "(prog (prin \"@S@\") (print (list %s)) (prin \"@S@\"))" % " ".join(ALL)
    out.append(seen)
    k = i
    for j in range(r.choice([10, 25])):
        t = TEMPL[k % len(TEMPL)] if j < 4 else r.choice(TEMPL)
        k += 7
        c = token_swap(r, t)
        calls.append(c)
        # the results stay alive, and are printed before and after the next call
        out.append("(prog (prin \"@B@\") (print (list c:old c:res)) (prin \"@B@\"))")
        out.append("(let ((v . %s)) (prin \"@A@\") (print (list c:old c:res)) (prin \"@A@\") "
                   "(<- 'c:old c:res) (<- 'c:res v))" % c)
        out.append(seen)
    return out, calls


def one(i):
    out, calls = program(i)
    variant = ("asan", "rel")[i % 2]
    head = HEAD + ("" if i % 3 else "(load 'iterators 'manips)\n")
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "w") as fh:
            fh.write(head + "\n".join(out) + "\n(prinl \"END\") T\n")
        return i, variant, out, calls, H.run(chk_dest[variant], ["-d", p], cwd=d, timeout=60)


chk_dest = {v: chk.build(v) for v in ("asan", "rel")}
for i, variant, out, calls, res in H.pmap(one, range(chk.n(1200, 20000))):
    chk.saw("\n".join(out))
    chk.count("calls_on_aliases", len(calls))
    for c in calls:
        chk.saw(c)
    if i in (0, 1):
        chk.sample("\n".join(calls)[:600])
    text = "\n".join(out)
    m = res.monitor()
    if m or res.timeout or not res.out.endswith(b"END\n"):
        chk.violation("calls on aliases: %s" % (m or ("hang" if res.timeout else "stopped")),
                      "variant %s rc %s\n%s" % (variant, res.rc, res.err[-2000:].decode("latin-1")), text)
        continue
    st = res.out.split(b"@S@")[1::2]
    for k in range(1, len(st)):
        if st[k] != st[k - 1]:
            chk.violation("arguments modified by %s" % calls[k - 1].split()[0],
                          "variant %s, %s\n-- before --\n%s\n-- after --\n%s" % (
                              variant, calls[k - 1], st[k - 1].decode("latin-1"), st[k].decode("latin-1")), text)
            break
    b, a = res.out.split(b"@B@")[1::2], res.out.split(b"@A@")[1::2]
    if len(st) != len(calls) + 1 or len(a) != len(calls) or len(b) != len(calls):
        chk.violation("calls on aliases: output lost", "variant %s\n%s" % (variant, res.out[-1500:]), text)
        continue
    for k in range(len(calls)):
        if a[k] != b[k]:
            chk.violation("an earlier result modified by %s" % calls[k].split()[0],
                          "variant %s, %s\n-- before --\n%s\n-- after --\n%s" % (
                              variant, calls[k], b[k].decode("latin-1"), a[k].decode("latin-1")), text)
            break
    chk.count("states_compared", len(st) + len(a))
    if chk.too_many():
        break
chk.finish(minimum=chk.n(1500, 20000))
