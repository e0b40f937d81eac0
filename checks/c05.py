#!/usr/bin/env python3
"""C05: arguments in any grouping; partial applications are independent values."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import harness as H

chk = H.Check("C05")
chk.rule = ("programs that call built-in, library, defined and lambda functions with their arguments in every grouping, "
            "keep partial applications in variables, lists, closures and globals and use them interleaved; output and "
            "values compared with the model; distinct program texts counted")

NATIVE2 = {"+": "num", "-": "num", "*": "num", "/": "num", "%": "num", "<": "num", ">": "num", "<=": "num",
           ">=": "num", "=": "any", "<>": "any", "cons": "any", "and": "any"}
LIB = {"foldl": ("fun2", "num", "list"), "foldr": ("fun2", "list", "num"), "map": ("fun1", "list"),
       "map2": ("fun2", "list", "list"), "zip": ("list", "list"), "has": ("list", "num"), "filter": ("pred", "list"),
       "assoc": ("num", "alist")}


class P:
    def __init__(self, r, p):
        self.r, self.p, self.k = r, p, 0
        self.out = []

    def nm(self, b="f"):
        self.k += 1
        return "%s:%s%d" % (self.p, b, self.k)

    def val(self, ty):
        r = self.r
        if ty == "num":
            return str(r.choice([0, 1, 2, 3, 5, 7, -1, -4, 10, 12, 100, (1 << 63) - 1, -(1 << 63)]))
        if ty == "list":
            return r.choice(["NIL", "'(%s)" % " ".join(str(r.randrange(-9, 9)) for _ in range(r.randrange(1, 5))),
                             "(list %s)" % " ".join(str(r.randrange(-9, 9)) for _ in range(r.randrange(1, 5)))])
        if ty == "alist":
            return "'(%s)" % " ".join("(%d . %d)" % (r.randrange(6), r.randrange(99)) for _ in range(r.randrange(1, 5)))
        if ty == "fun1":
            return r.choice(["(+ 1)", "(* %s)" % self.val("num"), "(\\ (e1) (prin e1 \";\") (- e1 2))", "(cons 0)", "car"])
        if ty == "fun2":
            return r.choice(["+", "-", "*", "(\\ (e1 e2) (prin e1 \",\" e2 \";\") (- e1 (* 3 e2)))"])
        if ty == "pred":
            return r.choice(["(< 2)", "(\\ (e1) (prin e1) (> e1 0))", "nil?", "num?"])
        return r.choice([self.val("num"), self.val("list"), "'s%d" % r.randrange(9), "\"ab\"", "^c", "T", "NIL", "_"])

    def arg(self, ty):
        """A value expression, sometimes with an effect that shows when it is evaluated."""
        v = self.val(ty)
        x = self.r.random()
        if x < 0.25:
            return "(prog (prin \"%s\") %s)" % (self.r.choice("abcdefgh") + "!", v)
        if x < 0.35:
            return "(prog (<- '%s:cnt (+ 1 %s:cnt)) %s)" % (self.p, self.p, v)
        if x < 0.42 and ty in ("num", "any"):
            return "%s:cnt" % self.p
        return v

    def groups(self, args):
        """A composition of the arguments; empty groups now and then."""
        r = self.r
        out, i = [], 0
        while i < len(args):
            if r.random() < 0.06:
                out.append([])
                continue
            n = r.randrange(1, len(args) - i + 1)
            out.append(args[i:i + n])
            i += n
        return out

    def call(self, f, gs):
        for g in gs:
            f = "(%s%s)" % (f, "".join(" " + a for a in g))
        return f

    def function(self):
        """(expression of the function, argument types); may add definitions."""
        r = self.r
        x = r.random()
        if x < 0.2:
            f = r.choice(sorted(NATIVE2))
            return f, [NATIVE2[f]] * 2
        if x < 0.38:
            f = r.choice(sorted(LIB))
            return f, list(LIB[f])
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        names = r.sample(["a", "b", "c", "d", "u", "v", "w", "z"], n)
        pats, tys, refs = [], [], []
        for nme in names:
            y = r.random()
            if y < 0.12:
                pats.append("(%s . r%s)" % (nme, nme))
                tys.append("list")
                refs += [nme, "r" + nme]
            elif y < 0.17:
                pats.append("_")
                tys.append("any")
            else:
                pats.append(nme)
                tys.append("num" if y < 0.7 else "any")
                refs.append(nme)
        free = r.choice(["", "", " k", " %s" % r.choice("abcd"), " %s:cnt" % self.p])
        body = "(list %s%s)" % (" ".join(refs) or "0", free)
        if r.random() < 0.3:
            body = "(prin \"<\" %s \">\") %s" % (refs[0] if refs else "0", body)
        if r.random() < 0.25:
            body = "(let ((t . %s)) (list t %s))" % ("(list %s)" % " ".join(refs or ["1"]), " ".join(refs or ["1"]))
        if r.random() < 0.2:
            body = "((\\ (q) (list q %s)) %s)" % (" ".join(refs or ["1"]), (refs or ["1"])[0])
        y = r.random()
        if y < 0.5:
            f = self.nm()
            self.out.append("(def %s (%s) %s)" % (f, " ".join(pats), body))
            return f, tys
        lam = "(\\ (%s) %s)" % (" ".join(pats), body)
        if y < 0.7:
            return lam, tys
        if y < 0.85:      # captured variables with the names of the arguments
            cap = r.sample(["a", "b", "c", "d", "k", "z"], 2)
            return "(let ((%s . 71) (%s . 72)) %s)" % (cap[0], cap[1], lam), tys
        f = self.nm()
        mk = self.nm("mk")
        self.out.append("(def %s (k a) %s)" % (mk, lam))
        self.out.append("(prog (setq %s (%s 8 9)) 1)" % (f, mk))
        return f, tys

    def program(self):
        r = self.r
        self.out.append("(setq %s:cnt 1)" % self.p)
        for _ in range(r.randrange(1, 3)):
            f, tys = self.function()
            args = [self.arg(t) for t in tys]
            # every grouping of the same arguments
            for _ in range(r.randrange(2, 5)):
                e = self.call(f, self.groups(args))
                w = r.random()
                if w < 0.25:
                    e = "(let ((a . 51) (b . 52) (u . 53)) %s)" % e
                elif w < 0.35:
                    e = "((\\ (c d k) %s) 61 62 63)" % e
                self.out.append(e)
            # partial applications kept and shared
            if len(tys) >= 2:
                self.sharing(f, tys)
            # too many
            extra = args + [self.arg("num") for _ in range(r.randrange(1, 3))]
            self.out.append(self.call(f, [extra]) if r.random() < 0.5 or len(args) < 2 else
                            self.call(f, [extra[:1], extra[1:]]))
        self.out.append("%s:cnt" % self.p)
        return self.out

    def sharing(self, f, tys):
        r = self.r
        p1 = self.nm("p")
        k = r.randrange(0, len(tys))
        self.out.append("(prog (setq %s %s) 1)" % (p1, self.call(f, [[self.arg(t) for t in tys[:k]]] if k or r.random() < 0.5 else [])))
        parts = [(p1, tys[k:])]
        for _ in range(r.randrange(1, 4)):
            q, rest = r.choice(parts)
            if len(rest) >= 2:
                n = r.randrange(1, len(rest))
                nq = self.nm("p")
                self.out.append("(prog (setq %s (%s %s)) 1)" % (nq, q, " ".join(self.arg(t) for t in rest[:n])))
                parts.append((nq, rest[n:]))
        for _ in range(r.randrange(2, 6)):
            q, rest = r.choice(parts)
            a = [self.arg(t) for t in rest]
            w = r.random()
            if w < 0.4:
                self.out.append(self.call(q, self.groups(a)))
            elif w < 0.55 and len(rest) == 1 and rest[0] in ("num", "any"):
                self.out.append("(map %s (list 3 1 2))" % q)
            elif w < 0.7:
                self.out.append("(let ((g . %s)) (list %s %s))" % (
                    q, self.call("g", self.groups(a)), self.call("g", self.groups([self.arg(t) for t in rest]))))
            elif w < 0.85:
                self.out.append("((\\ (g h) (list %s %s)) %s %s)" % (
                    self.call("g", self.groups(a)), self.call("h", self.groups([self.arg(t) for t in rest])), q, q))
            elif len(rest) == 1:
                self.out.append("(|> %s %s)" % (a[0], q))
            else:
                self.out.append("(let ((a . 1) (b . 2) (k . 3)) %s)" % self.call(q, self.groups(a)))
        # the original still works
        self.out.append(self.call(f, [[self.arg(t) for t in tys]]))


def make(i):
    return P(chk.rng(i), "c%d" % (i % 40)).program()


HEADC = ("(load 'std 'logic 'math 'io 'iterators 'manips \"@lib/append.l\" \"@lib/rev.l\" \"@lib/filter.l\" "
         "\"@lib/has.l\")\n")
cases = D.generate(chk, make, chk.n(12000, 150000))
for c in cases[:2]:
    chk.sample("\n".join(c[1]) + "\n-- expected --\n" + c[2].decode("latin-1"))
half = len(cases) * 3 // 4
D.run_batches(chk, cases[:half], ["asan", "rel"], leaks=True)
D.run_batches(chk, cases[half:], ["asan", "rel"], header=HEADC)


# native functions of three parameters need descriptors and processes: the same call in every grouping
HEADN = ("(load 'std 'logic 'math 'io 'unix)\n(def show (n fd) (prin n) (= 0 0))\n(def err (fd) (prin \"E\") NIL)\n")


def groupings(f, args):
    """Every composition of the arguments; also through variables and parameters."""
    out = []
    for m in range(1 << (len(args) - 1)):
        gs, g = [], [args[0]]
        for k in range(1, len(args)):
            if m >> (k - 1) & 1:
                gs.append(g)
                g = []
            g.append(args[k])
        gs.append(g)
        e = f
        for g in gs:
            e = "(%s %s)" % (e, " ".join(g))
        out.append(e)
        e = f
        for k, g in enumerate(gs):
            e = ("(let ((p%d . %s)) (p%d %s))" if k % 2 else "((\\ (p%d) (p%d %s)) %s)") % (
                (k, e, k, " ".join(g)) if k % 2 else (k, k, " ".join(g), e))
        out.append(e)
    return out


def native3(i):
    r = chk.rng("native3", i)
    out, want, calls = [], b"", 0
    n = r.choice([1, 2, 4, 7])
    for k in range(n):
        out.append("(setq q%d (pipe))" % k)
    fds = list(range(n))
    r.shuffle(fds)
    ready = [k for k in fds if r.random() < 0.6] or fds[:1]
    for k in ready:
        out.append("(prog (out (cdr q%d) (prinl %d)) NIL)" % (k, k))
    lst = "(list %s)" % " ".join("(car q%d)" % k for k in fds)
    cb = "(\\ (fd) (prin (cond fd %s (_ . \"?\")) \";\") T)" % " ".join(
        "((= (car q%d)) . %d)" % (k, k) for k in fds)
    gs = groupings("select", [lst, cb, r.choice(["NIL", "err"])])
    r.shuffle(gs)
    for e in gs:
        out.append("(printl (= %s (list %s %s)))" % (e, lst, lst))
        want += b"".join(b"%d;" % k for k in fds if k in ready) + b"T\n"
        calls += 1
    words = ["w%d" % r.randrange(100) for _ in range(r.choice([1, 2, 5]))]
    env = r.random() < 0.5
    args = ['"/bin/sh"', "'(\"-c\" \"echo $* $VV\" \"x\" %s)" % " ".join('"%s"' % w for w in words),
            "'(\"VV=vv\")" if env else "NIL"]
    gs = groupings("exec", args)
    for e in r.sample(gs, 4):
        out.append("(printl (let ((x . (fork))) (if (= x 0) %s (wait x))))" % e)
        want += (" ".join(words + (["vv"] if env else []))).encode() + b"\n0\n"
        calls += 1
    text = HEADN + "\n".join(out) + "\nT\n"
    v = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "w") as fh:
            fh.write(text)
        return text, want, calls, v, H.run(chk.build(v), ["-d", p], cwd=d, timeout=30)


for v in ("asan", "rel"):
    chk.build(v)
for text, want, calls, v, res in H.pmap(native3, range(chk.n(60, 1500))):
    chk.saw(text)
    chk.count("native_calls_of_three", calls)
    if res.timeout:
        chk.violation("native function of three: no answer", "variant %s\nprinted %r" % (v, res.out[-1000:]), text)
    elif res.monitor() or res.out != want or res.rc != 0:
        chk.violation("native function of three: %s" % (res.monitor() or "output differs"),
                      "variant %s rc %s\n-- expected --\n%s-- got --\n%s" % (v, res.rc, want.decode(), res.out.decode("latin-1")), text)
    if chk.too_many():
        break
chk.finish(minimum=chk.n(3000, 30000))
