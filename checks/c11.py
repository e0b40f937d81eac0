#!/usr/bin/env python3
"""C11: 64-bit arithmetic, order, structural equality, predicates and truth."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import diff as D
import harness as H
import model as M

chk = H.Check("C11")
chk.rule = ("operators over all pairs of a grid of boundary numbers and random 64-bit operands; = and <> over pairs of "
            "generated values that are equal, differ in one leaf, or differ only in type; every predicate over every "
            "kind of value; each result compared with the model; distinct expression lists counted")
B = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, -10, 255, 256, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32,
     -(1 << 32), (1 << 32) - 1, (1 << 32) + 1, (1 << 53) + 1, 1 << 62, -(1 << 62), (1 << 63) - 1, (1 << 63) - 2, -(1 << 63),
     -(1 << 63) + 1, 3037000499, 3037000500, -3037000500, 4294967297, 1 << 61]
OPS = ["+", "-", "*", "/", "%", "<", "<=", ">", ">="]


def num(r):
    x = r.random()
    if x < 0.35:
        return r.choice(B)
    if x < 0.6:
        return r.choice(B) + r.randrange(-3, 4)
    if x < 0.8:
        return r.randrange(-(1 << 63), 1 << 63)
    k = r.randrange(1, 64)
    return r.randrange(-(1 << k), 1 << k)


def lit(n):
    return str(M.wrap64(n))


def expr(r, d):
    if d == 0 or r.random() < 0.2:
        return lit(num(r))
    return "(%s %s %s)" % (r.choice(OPS[:5]), expr(r, d - 1), expr(r, d - 1))


def quoted(x, r):
    toks = []
    X.tokens(x, r, toks)
    return "(car '(%s))" % X.lay(toks, r, "flat").decode("latin-1")


def paths(x, pre=()):
    """Positions of the leaves."""
    out = []
    st = [(x, ())]
    while st:
        y, p = st.pop()
        if isinstance(y, M.Pair):
            st.append((y.car, p + (0,)))
            st.append((y.cdr, p + (1,)))
        else:
            out.append(p)
    return out


def subst(x, p, f):
    if not p:
        return f(x)
    if p[0] == 0:
        return M.Pair(subst(x.car, p[1:], f), x.cdr)
    return M.Pair(x.car, subst(x.cdr, p[1:], f))


def near(x, r):
    """A leaf close to another one."""
    if isinstance(x, M.Char):
        return r.choice([x.v & 127 or 1, M.Char((x.v & 0x7f) ^ 1 if 33 < x.v < 126 else 65), M.sym("a")])
    if isinstance(x, int):
        y = r.choice([x + 1, -x, x ^ (1 << 32), x ^ (1 << 62), x ^ (-1 << 63), x + 256])
        if 33 <= x < 127 and r.random() < 0.5:
            return M.Char(x)
        return M.wrap64(y)
    if isinstance(x, M.Sym):
        s = x.name
        k = r.randrange(len(s))
        return r.choice([M.sym(s[:k] + r.choice("abcXYZ") + s[k + 1:]), M.sym((s + "q")[:16]),
                         M.sym(s[:-1] if len(s) > 1 and s[:-1] not in (".", "T", "_", "NIL", "-") else s + "z"),
                         M.string(s.encode("latin-1"))])
    return r.choice([y for y in (M.NIL, M.T, M.WILD, 0, 1) if y is not x])


def okname(x):
    """Symbols of a mutated value must still be symbols for the reader."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, M.Pair):
            st += [y.car, y.cdr]
        elif isinstance(y, M.Sym) and (len(y.name) > 16 or y.name in ("T", "NIL", "_", ".") or
                                       y.name[0] in "0123456789" or
                                       (y.name[0] == "-" and y.name[1:2].isdigit())):
            return False
        elif X.unlexable(y):
            return False
    return True


def value(r):
    while True:
        x = X.datum(r, r.choice([0, 0, 1, 2, 3]))
        if okname(x):
            return x


VALS = ["NIL", "T", "_", "0", "1", "-5", "^a", "'a", "'quote", '""', '"a"', '"abc"', "'(1 2)", "'(1 . 2)", "'(^a . ^b)",
        "'(^a 1)", "'(^a ^b)", "'(NIL)", "'((1) 2)", "(chr 0)", "(chr 200)", "'(^a . a)", "'((^a) ^b)", "car", "(+ 1)",
        "(\\ (x) x)", "'(_)", "'(T)"]
PREDS = ["atm?", "lst?", "nil?", "tru?", "num?", "chr?", "sym?", "str?", "not"]


def make(i):
    r = chk.rng(i)
    k = i % 11
    out = []
    if k == 10:         # conversions between symbols, strings, characters
        for _ in range(20):
            n = r.choice([1, 2, 7, 8, 9, 14, 15, 15, 16, 16, 16])
            t = r.choice("abcxyzABC+*<>=?") + "".join(r.choice("abcxyzABC0189+*<>=?/") for _ in range(n - 1))
            q = "".join(r.choice("abc XYZ0189+*<>=?/()'.;:") for _ in range(r.choice([0, 1, 3, 14, 15, 16, 17, 18, 33, 100])))
            out.append(r.choice([
                "(list (str '%s) (len (str '%s)) (sym (str '%s)))" % (t, t, t),
                "(list (= (sym (str '%s)) '%s) (= (str '%s) \"%s\"))" % (t, t, t, t),
                "((\\ (a b) (list (= a b) (<> a b) (str a))) (sym \"%s\") (sym \"%s\"))" % (q, r.choice([q, q[:16], q + "z", q[:-1]])),
                "(list (sym? (sym \"%s\")) (sym \"%s\"))" % (q, t),
                "(list %s)" % " ".join("(sym %s)" % r.choice(VALS) for _ in range(3)),
                "((\\ (n) (list (chr? (chr n)) (num? (chr n)) (= (chr n) n) (= (chr n) (chr (+ n 256))) (= (chr n) ^%s))) %d)" % (
                    r.choice("aB0z~!"), r.choice([33, 65, 66, 97, 126, 127, 128, 255, 256, -1, 48, 1, r.randrange(256)])),
                "(chr %d)" % r.choice([33, 48, 65, 90, 97, 122, 126, 9, 10, 13, 27, 92, 94, 40, 41]),
                "(= (list (chr %d) (chr %d)) \"ab\")" % (r.choice([97, 98]), r.choice([97, 98])),
            ]))
    elif k < 3:
        for _ in range(40):
            out.append("(%s %s %s)" % (r.choice(OPS), lit(num(r)), lit(num(r))))
    elif k == 3:
        for _ in range(20):
            out.append(expr(r, r.choice([2, 3, 5])))
    elif k == 4:        # the same operands under all the orders: consistent with each other
        for _ in range(8):
            a, b = lit(num(r)), lit(num(r))
            out.append("((\\ (a b) (list (< a b) (<= a b) (> a b) (>= a b) (= a b) (<> a b) (< b a) (>= b a))) %s %s)"
                       % (a, r.choice([a, b, b])))
            out.append("((\\ (a b) (= a (+ (* (/ a b) b) (%% a b)))) %s %s)" % (a, b if b != "0" else "1"))
    elif k < 8:
        for _ in range(20):
            x = value(r)
            y = x
            if r.random() < 0.75:
                for _ in range(20):
                    p = r.choice(paths(x))
                    y = subst(x, p, lambda z: near(z, r))
                    if okname(y):
                        break
                else:
                    y = M.NIL
            a, b = quoted(x, r), quoted(y, r)
            out.append("((\\ (a b) (list (= a b) (<> a b) (= b a) (= a a) (<> b b))) %s %s)" % (a, b))
    elif k == 8:
        for _ in range(20):
            v = quoted(value(r), r) if r.random() < 0.5 else r.choice(VALS)
            out.append("((\\ (a) (list %s)) %s)" % (" ".join("(%s a)" % p for p in PREDS), v))
    else:
        for _ in range(25):
            a = r.choice(VALS) if r.random() < 0.7 else quoted(value(r), r)
            b = r.choice(VALS) if r.random() < 0.7 else quoted(value(r), r)
            out.append("((\\ (a b) (list (and a b) (or a b) (not (and a b)) (or (not a) b))) %s %s)" % (a, b))
    return out


def grid(i):
    """All pairs of boundary operands for one operator."""
    op = OPS[i % len(OPS)]
    a = B[i // len(OPS)]
    return ["(%s %s %s)" % (op, lit(a), lit(b)) for b in B]


n = chk.n(6000, 60000)
ng = len(OPS) * len(B)
cases = D.generate(chk, lambda i: grid(i) if i < ng else make(i - ng), ng + n, lib=False)
for c in cases[ng:ng + 6]:
    chk.sample("\n".join(c[1][:6]))
for c in cases:
    chk.count("results_observed", len(c[1]))
D.run_batches(chk, cases, ["asan", "rel"], per=25, header="(load 'std 'logic 'math 'io)\n", leaks=True)
chk.finish(minimum=chk.n(1000, 10000))
