#!/usr/bin/env python3
"""C23: expressions evaluated while reading (backtick and tilde)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import harness as H
import model as M

chk = H.Check("C23")
chk.rule = ("programs whose expressions hold backticks (replaced by a value) and tildes (whose elements are spliced) at any "
            "depth, in quoted lists, function bodies, arguments and data read with (read), over globals that are printed "
            "again and changed in between, with expressions that print and count their own evaluations; given as a script, "
            "through load, -e, a channel and the prompt in pieces; output compared with a reference reader and "
            "interpreter; malformed texts watched by the memory, leak and hang monitors; distinct programs counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
VARS = ["va", "vb", "vc", "vd"]
NUMS = ["na", "nb"]
MODS = ("std", "logic", "math", "io")


def safe(x):
    """Data that can be written everywhere."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, M.Pair):
            st += [y.car, y.cdr]
        elif X.unlexable(y) or isinstance(y, M.Sym) and y.name in ("quote", "\\"):
            return False
    return True


def datum(r):
    while True:
        x = X.datum(r, r.choice([0, 0, 1, 2, 3]))
        if safe(x):
            return x


def plain(r):
    """A small list or atom for a global."""
    x = r.random()
    if x < 0.5:
        return M.from_list([r.choice([r.randrange(100), M.sym("s"), M.Char(97), M.NIL, M.from_list([1, 2])])
                            for _ in range(r.choice([1, 2, 3, 7]))])
    if x < 0.6:
        return M.from_list([1, 2, M.sym("k")], r.randrange(9))
    if x < 0.7:
        return M.string("abc"[:r.choice([1, 2, 3])])
    return datum(r)


def proper(x):
    while isinstance(x, M.Pair):
        x = x.cdr
    return x is M.NIL


class Prog:
    def __init__(self, r, how):
        self.r = r
        self.how = how
        self.it = M.Interp(200000)
        self.funs = []
        self.text = bytearray()
        self.log = []               # what a session at the prompt shows
        self.mark = 0
        self.ticks = self.splices = 0

    # the expressions of backticks and tildes: they are evaluated when they have been read

    def num(self, d, out):
        """A numeric expression: tokens appended to OUT, datum returned."""
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.3:
            n = r.choice([0, 1, 7, -3, 1000])
            out.append(b"%d" % n)
            return n
        if x < 0.5:
            n = r.choice(NUMS)
            out.append(n.encode())
            return M.sym(n)
        if x < 0.65:
            return self.tick(d - 1, out, self.num)
        op = r.choice("+-*")
        out += [b"(", op.encode()]
        a = self.num(d - 1, out)
        b = self.num(d - 1, out)
        out.append(b")")
        return M.from_list([M.sym(op), a, b])

    def value(self, d, out):
        """Any expression that can follow a backtick."""
        r = self.r
        x = r.random()
        if x < 0.3:
            n = r.choice(VARS + NUMS + ["unbound"])
            out.append(n.encode())
            return M.sym(n)
        if x < 0.4:
            return self.num(d, out)
        n = r.choice(["list", "cons", "car", "cdr", "say", "say", "tick", "fun", "quote"])
        out.append(b"(")
        if n == "quote":
            x = datum(r) if r.random() < 0.4 else None
            out.append(b"quote .")
            if x is None:
                x = self.template(d - 1, out)
            else:
                X.tokens(x, r, out)
            out.append(b")")
            return M.Pair(M.QUOTE, x)
        if n == "fun" and not self.funs or self.how == "-e" and n in ("fun", "say", "tick"):
            n = "list"
        if n == "fun":
            n = r.choice(self.funs)
            out.append(n.encode())
            args = [self.operand(d - 1, out)]
        elif n == "tick":
            out.append(b"setq")
            out.append(b"cnt")
            out += [b"(", b"+", b"cnt"]
            k = self.num(d - 1, out)
            out += [b")", b")"]
            return M.from_list([M.sym("setq"), M.sym("cnt"), M.from_list([M.sym("+"), M.sym("cnt"), k])])
        else:
            out.append(n.encode())
            args = [self.operand(d - 1, out) for _ in range({"list": r.choice([1, 2, 3]), "cons": 2}.get(n, 1))]
        out.append(b")")
        return M.Pair(M.sym(n), M.from_list(args))

    def operand(self, d, out):
        r = self.r
        x = r.random()
        if d > 0 and x < 0.3:
            return self.value(d, out)
        if x < 0.5:
            n = r.choice(VARS)
            out.append(n.encode())
            return M.sym(n)
        if x < 0.75:
            out.append(b"'(")
            k = len(out) - 1
            t = self.template(d, out)
            out[k:k + 2] = [b"'("]
            return M.Pair(M.QUOTE, t)
        return self.num(d, out)

    def tick(self, d, out, inner):
        """`E inside an evaluated expression: E has a number for value."""
        k = len(out)
        e = inner(d, out)
        if out[k][:1] == b"`":
            return e
        out[k] = b"`" + out[k]
        return self.now(e)

    def now(self, e):
        self.ticks += 1
        return self.it.top(e)

    def template(self, d, out):
        """A list read as data: the tokens of ( ... ) appended to OUT, what it stands for returned."""
        r = self.r
        out.append(b"(")
        xs, tail = [], M.NIL
        n = r.choice([1, 1, 2, 3, 5])
        for j in range(n):
            x = r.random()
            k = len(out)
            if x < 0.3 or d <= 0:
                a = datum(r)
                X.tokens(a, r, out)
                xs.append(a)
            elif x < 0.45:
                xs.append(self.template(d - 1, out))
            else:
                e = self.value(d - 1, out)
                while out[k][:1] in b"`":
                    del out[k:]
                    e = self.value(d - 1, out)
                v = self.now(e)
                if x < 0.7 or j == 0 or not proper(v) and j != n - 1:
                    out[k] = b"`" + out[k]
                    xs.append(v)
                else:
                    out[k] = b"~" + out[k]
                    self.splices += 1
                    while isinstance(v, M.Pair):
                        xs.append(v.car)
                        v = v.cdr
                    tail = v
        if tail is M.NIL and r.random() < 0.15:
            out.append(b".")
            if r.random() < 0.5:
                k = len(out)
                e = self.value(d - 1, out)
                out[k] = b"`" + out[k] if out[k][:1] != b"`" else out[k]
                tail = self.now(e)
            else:
                tail = r.randrange(50)
                out.append(b"%d" % tail)
        out.append(b")")
        return M.from_list(xs, tail)

    # statements: tokens, expression once read

    def quoted(self, d, out):
        k = len(out)
        t = self.template(d, out)
        out[k] = b"'("
        return M.Pair(M.QUOTE, t)

    def stmt(self, out):
        r = self.r
        d = r.choice([1, 2, 3])
        x = r.random()
        if self.how == "-e" and x > 0.9:
            x = 0.1

        def sx(name, *args):
            return M.from_list([M.sym(name)] + list(args))
        if x < 0.4:
            out += [b"(", b"printl"]
            q = self.quoted(d, out)
            out.append(b")")
            return sx("printl", q)
        if x < 0.55:
            v = r.choice(VARS)
            out += [b"(", b"setq", v.encode()]
            q = self.quoted(d, out)
            out.append(b")")
            return sx("setq", M.sym(v), q)
        if x < 0.65:
            v = r.choice(NUMS)
            out += [b"(", b"setq", v.encode()]
            q = self.num(d, out)
            out.append(b")")
            return sx("setq", M.sym(v), q)
        if x < 0.75:
            out += [b"(", b"printl", b"(", b"list", b"va", b"vb", b"vc", b"vd", b"na", b"nb", b"cnt", b")", b")"]
            return sx("printl", sx("list", *[M.sym(n) for n in VARS + NUMS + ["cnt"]]))
        if x < 0.85:
            # changed between the reading and the evaluation
            v = r.choice(NUMS)
            out += [b"(", b"prog", b"(", b"setq", v.encode(), b"(", b"+", v.encode(), b"1", b")", b")", b"(", b"printl",
                    v.encode()]
            q = self.quoted(d, out)
            out += [b")", b")"]
            return sx("prog", sx("setq", M.sym(v), sx("+", M.sym(v), 1)), sx("printl", M.sym(v), q))
        if x < 0.9 or self.how in ("prompt", "-e") or not self.can_def:
            out += [b"(", b"printl"]
            n = self.num(d, out)
            out.append(b")")
            return sx("printl", n)
        if self.funs and r.random() < 0.6:
            f = r.choice(self.funs)
            out += [b"(", b"printl", b"(", f.encode()]
            n = self.num(1, out)
            out += [b")", b")"]
            return sx("printl", sx(f, n))
        # what a body holds is fixed when it is read
        f = "f%d" % len(self.funs)
        out += [b"(", b"def", f.encode(), b"(", b"y", b")", b"(", b"list", b"y"]
        a = self.quoted(d, out)
        b = self.num(d, out)
        out += [b")", b")"]
        self.newfun = f
        return sx("def", M.sym(f), M.from_list([M.sym("y")]), sx("list", M.sym("y"), a, b))

    def group(self):
        """Expressions that share their lines: all are read before the first is evaluated."""
        r = self.r
        todo = []
        self.can_def = True
        n = 12 if self.how == "-e" else r.choice([1, 1, 1, 2, 3])
        for _ in range(n):
            out = []
            self.newfun = None
            todo.append((self.stmt(out), self.newfun))
            if self.newfun:
                self.can_def = False
            self.text += X.lay(out, r, None if len(self.text) < 20000 else "flat") + b" "
        self.text[-1:] = b"\n"
        self.note()
        for e, f in todo:
            v = self.it.top(e)
            self.note()
            self.log.append(b"> " + M.show(v) + b"\n")
            if f:
                self.funs.append(f)

    def note(self):
        self.log += self.it.out[self.mark:]
        self.mark = len(self.it.out)


def setup(it):
    """The globals, and the text that makes them."""
    r = it.r
    lines = ["(load %s)" % " ".join("'" + m for m in MODS), "(def say (x) (prog (prinl x) x))", "(setq cnt 0)"]
    it.it.top(M.read_all(lines[1])[0])
    it.it.top(M.read_all(lines[2])[0])
    if it.how == "-e":
        lines = ["`(load %s)" % " ".join("'" + m for m in MODS), "'(`(setq cnt 0))"]
    for v in VARS + NUMS:
        x = r.randrange(100) if v in NUMS else plain(r)
        out = [b"(", b"setq", v.encode(), b"(", b"car", b"'("]
        X.tokens(x, r, out)
        out += [b")", b")", b")"]
        it.it.top(M.from_list([M.sym("setq"), M.sym(v), M.Pair(M.QUOTE, x)]))
        t = X.lay(out, r, "flat").decode("latin-1")
        lines.append("'(`%s)" % t if it.how == "-e" else t)
    return ("\n".join(lines) + "\n").encode("latin-1")


def one(i):
    for k in range(50):
        r = chk.rng("p", i, k)
        how = r.choice(["script", "load", "prompt", "prompt", "read", "-e"])
        p = Prog(r, how)
        try:
            head = setup(p)
            if how == "read":
                p.data = []
                for _ in range(r.choice([2, 5, 10])):
                    out = []
                    a = len(p.it.out)
                    v = p.template(r.choice([1, 2, 3]), out)
                    p.text += X.lay(out, r) + b"\n"
                    p.data.append((b"".join(p.it.out[a:]), v))
            else:
                for _ in range(1 if how == "-e" else r.choice([3, 8, 15])):
                    p.group()
        except (M.Unsupported, RecursionError):
            continue
        break
    else:
        return None
    body = bytes(p.text)
    if b"\0" in body or how == "-e" and len(body) > 60000:
        return None
    outs = b"".join(p.it.out)
    last = b"(printl (list va vb vc vd na nb cnt))\n"
    end = M.from_list([p.it.lookup({}, v) for v in VARS + NUMS + ["cnt"]])
    final = M.show(end) + b"\n"
    variant = "asan" if r.random() < 0.6 else "rel"
    with H.Scratch() as d:
        f = os.path.join(d, "t.l")
        want = outs + final
        if how == "script":
            open(f, "wb").write(head + body + last + b"T\n")
            res = H.run(DEST[variant], ["-d", f], cwd=d, timeout=60)
        elif how == "load":
            open(os.path.join(d, "u.l"), "wb").write(body)
            open(f, "wb").write(head + b'(load "u.l")\n' + last + b"T\n")
            res = H.run(DEST[variant], ["-d", f], cwd=d, timeout=60)
        elif how == "-e":
            res = H.run(DEST[variant], ["-d", "-e", head + body + last + b"T"], cwd=d, timeout=60)
        elif how == "read":
            open(os.path.join(d, "data.txt"), "wb").write(body)
            open(f, "wb").write(head + b'(in "data.txt" %s)\n' % (b"(printl (read)) " * (len(p.data) + 1)) + last + b"T\n")
            want = b"".join(o + M.show(v) + b"\n" for o, v in p.data) + b"NIL\n" + final
            res = H.run(DEST[variant], ["-d", f], cwd=d, timeout=60)
        else:
            open(os.path.join(d, "h.l"), "wb").write(head)
            want = b"".join(p.log) + final + b"> " + final
            res = H.run(DEST[variant], ["-d"], stdin=(b'(load "h.l")\n' + body + last, r), cwd=d, timeout=60)
    got = res.out
    if how == "prompt":
        got = []
        for line in res.out.split(b"\n"):
            while line.startswith(b": "):
                line = line[2:]
            got.append(line)
        while got and got[-1] in (b"", b":"):
            got.pop()
        got = b"\n".join(got[1:]) + b"\n"
    return i, variant, how, head + body, want, got, res, p


for c in H.pmap(one, range(chk.n(1500, 30000))):
    if c is None:
        chk.inconclusive += 1
        continue
    i, variant, how, text, want, got, res, p = c
    chk.saw(text)
    chk.count("by:" + how)
    chk.count("evaluated_while_reading", p.ticks)
    chk.count("spliced", p.splices)
    if i in (3, 4, 5):
        chk.sample(text[:800])
    note = res.monitor() or ("hang" if res.timeout else None)
    if not note and got != want:
        note = "not what the text stands for"
    if not note and (res.rc == 254 or res.stats and res.live()):
        note = "cells not released"
    if note:
        a, b = want.split(b"\n"), got.split(b"\n")
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        chk.violation("%s: %s" % (how, note), "variant %s, rc %s, line %d\n-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
            variant, res.rc, k, b"\n".join(a[k:k + 3])[:1500].decode("latin-1"),
            b"\n".join(b[k:k + 3])[:1500].decode("latin-1"), res.err[-2000:].decode("latin-1")), text)
    if chk.too_many():
        break


# malformed texts: nothing is lost, nothing breaks
WORDS = [b"`(list 1 2)", b"~(list 1 2)", b"`va", b"~va", b"`5", b"~5", b"~()", b"`()", b"~NIL", b"`(car va)", b"~(cdr va)", b"(", b")", b"(",
         b")", b"'(", b"1", b"abc", b'"str"', b"^c", b".", b"\x01", b"^\x01", b"`", b"~", b"'", b"`\x01", b"~\x80", b"`^a", b'~"s"', b"'a",
         b"`(", b"~(", b"`(list '(", b"\n", b"\n", b"`(setq vb (list 1 2 3))", b"~vb", b"``va", b"~~va", b"`~va", b"~`va", b"'`va",
         b"# c", b"~unbound", b"`(cons 1 2)", b"~(cons 1 2)"]


def wild(i):
    r = chk.rng("wild", i)
    body = b""
    for _ in range(r.choice([1, 3, 6])):
        q = r.random() < 0.8
        body += (b"'(x " if q else b"") + b" ".join(r.choice(WORDS) for _ in range(r.choice([1, 2, 4, 8]))) + \
            (b")" if q and r.random() < 0.7 else b"") + r.choice([b"\n", b"\n", b" ", b"\n\n"])
    how = r.choice(["script", "prompt", "-e", "read"])
    variant = "asan" if r.random() < 0.7 else "rel"
    head = b"(load 'std 'logic 'math 'io)\n(setq va '(a b (c) . d))\n(setq vb NIL)\n"
    with H.Scratch() as d:
        f = os.path.join(d, "t.l")
        if how == "script":
            open(f, "wb").write(head + body)
            res = H.run(DEST[variant], ["-d", f], cwd=d, timeout=30)
        elif how == "prompt":
            res = H.run(DEST[variant], ["-d"], stdin=head + body, cwd=d, timeout=30)
        elif how == "-e":
            res = H.run(DEST[variant], ["-d", "-e", b"`(load 'std 'logic 'math 'io) '(`(setq va '(a b (c) . d)))\n" + body],
                        cwd=d, timeout=30)
        else:
            open(os.path.join(d, "data.txt"), "wb").write(body)
            open(f, "wb").write(head + b'(in "data.txt" (printl (read) (read) (read)) (readline) (printl (read)))\nT\n')
            res = H.run(DEST[variant], ["-d", f], cwd=d, timeout=30)
    return how, variant, head + body, res


for how, variant, text, res in H.pmap(wild, range(chk.n(1500, 30000))):
    chk.saw(text)
    chk.count("malformed:" + how)
    note = res.monitor() or ("hang" if res.timeout else None)
    if not note and (res.rc == 254 or res.stats and res.live()):
        note = "cells not released"
    if note:
        chk.violation("malformed, %s: %s" % (how, note), "variant %s, rc %s\n%s" % (
            variant, res.rc, res.err[-2000:].decode("latin-1")), text)
    if chk.too_many():
        break
chk.finish(minimum=chk.n(1500, 20000))
