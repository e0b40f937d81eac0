#!/usr/bin/env python3
"""C12: match, cond and deconstruction select and bind what the patterns say."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import diff as D
import harness as H
import model as M

chk = H.Check("C12")
chk.rule = ("subjects and patterns derived from them (wildcards put in, one leaf changed, structure cut or extended), in "
            "random order of clauses; cond with partial applications, lambdas and defined predicates returning T, NIL "
            "and other values; deconstruction patterns of any shape in let, lambda and def, values longer or shorter; "
            "effects of subjects, predicates and clauses are traced; compared with the model; distinct cases counted")


def okdatum(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, M.Pair):
            if y.car is M.QUOTE:
                return False
            st += [y.car, y.cdr]
        elif X.unlexable(y):
            return False
        elif isinstance(y, M.Sym) and y.name in ("fun", "e", "x"):
            return False
    return True


SY = ["a", "b", "abc", "abd", "abcdefghijklmnop", "abcdefghijklmnoq", "k1", "k2"]


def leaf(r):
    x = r.random()
    if x < 0.35:
        return r.choice([0, 1, 2, 3, -1, 65, 97, 1 << 40])
    if x < 0.6:
        return M.sym(r.choice(SY))
    if x < 0.75:
        return M.Char(r.choice([65, 97, 98, 10]))
    return r.choice([M.NIL, M.NIL, M.T, 1, 2, M.WILD])


def datum(r, d):
    if d == 0 or r.random() < 0.25:
        return leaf(r)
    xs = [datum(r, d - 1) for _ in range(r.choice([1, 2, 2, 3, 4]))]
    return M.from_list(xs, leaf(r) if r.random() < 0.25 else M.NIL)


def text(x):
    return M.show(x).decode("latin-1")


def nodes(x):
    out = []
    st = [(x, ())]
    while st:
        y, p = st.pop()
        out.append(p)
        if isinstance(y, M.Pair):
            st.append((y.car, p + (0,)))
            st.append((y.cdr, p + (1,)))
    return out


def subst(x, p, f):
    if not p:
        return f(x)
    if p[0] == 0:
        return M.Pair(subst(x.car, p[1:], f), x.cdr)
    return M.Pair(x.car, subst(x.cdr, p[1:], f))


def pattern(x, r):
    """A pattern near the subject."""
    y = x
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        p = r.choice(nodes(y))
        k = r.random()
        if k < 0.5:
            y = subst(y, p, lambda z: M.WILD)
        elif k < 0.7:
            y = subst(y, p, lambda z: leaf(r))
        elif k < 0.8:
            y = subst(y, p, lambda z: M.Pair(z, M.NIL))
        elif k < 0.9:
            y = subst(y, p, lambda z: z.cdr if isinstance(z, M.Pair) else z)
        else:
            y = subst(y, p, lambda z: z.car if isinstance(z, M.Pair) else leaf(r))
    return y


def has_func_shape(x):
    """Data that would be taken for a function when evaluated."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, M.Pair):
            if (M.is_list(y.car) or isinstance(y.car, M.Sym)) and isinstance(y.cdr, M.Pair) and M.is_list(y.cdr.car) \
                    and isinstance(y.cdr.cdr, (M.Pair, int)):
                return True
            st += [y.car, y.cdr]
    return False


def subject(r):
    while True:
        x = datum(r, r.choice([0, 1, 2, 3]))
        if okdatum(x) and not has_func_shape(x):
            return x


def tick(r, n):
    return '(prog (prin "<%d>") %s)' % (n, "%s")


def clause_body(r, n):
    x = r.random()
    if x < 0.4:
        return "(prog (prin \"{%d}\") %d)" % (n, n)
    if x < 0.55:
        return str(n)
    if x < 0.65:
        return "'c%d" % n
    if x < 0.75:
        return "NIL"
    if x < 0.85:
        return "(list z %d)" % n
    return "(+ z %d)" % n


def match_case(r):
    x = subject(r)
    cl = []
    for n in range(r.choice([1, 2, 3, 5, 8])):
        p = pattern(x, r) if r.random() < 0.8 else subject(r)
        cl.append("(%s . %s)" % (text(p), clause_body(r, n)))
    if r.random() < 0.5:
        cl.append("(_ . %s)" % clause_body(r, 99))
    if r.random() < 0.15:       # not only as the last clause
        cl.insert(r.randrange(len(cl)), "(_ . %s)" % clause_body(r, 98))
    return '((\\ (z) (match (prog (prin "s") %s) %s)) 7)' % ("(car '(%s))" % text(x), " ".join(cl))


PREDS = ["(= %s)", "(<> %s)", "(\\ (q) (prin \"p\") (= q %s))", "(\\ (q) %s)", "isk", "(is2 %s)", "lst?", "atm?", "num?",
         "sym?", "nil?", "not", "(\\ (q) (list q))", "(is3 %s 4)", "chr?", "str?"]
DEFS = ["(def isk (q) (prin \"k\") (= q 1))", "(def is2 (n q) (prin \"2\") (= n q))",
        "(def is3 (n m q) (or (= n q) (= m q)))"]


def cond_case(r):
    x = subject(r)
    if r.random() < 0.4:
        x = r.choice([0, 1, 2, 3, 4, 5])
    cl = []
    for n in range(r.choice([1, 2, 3, 5])):
        p = r.choice(PREDS)
        if isinstance(x, int) and r.random() < 0.3:
            p = r.choice(["(> %s)", "(<= %s)", "(+ %s)", "(\\ (q) (< q %s))"])
            p = p % r.choice([0, 1, 2, 3])
        elif "%s" in p:
            y = pattern(x, r) if r.random() < 0.5 else x
            p = p % ("(car '(%s))" % text(y) if not isinstance(y, int) else y)
        cl.append("(%s . %s)" % (p, clause_body(r, n)))
    if r.random() < 0.5:
        cl.append("(_ . %s)" % clause_body(r, 99))
    if r.random() < 0.15:       # not only as the last clause
        cl.insert(r.randrange(len(cl)), "(_ . %s)" % clause_body(r, 98))
    return '((\\ (z) (cond (prog (prin "s") %s) %s)) 7)' % ("(car '(%s))" % text(x), " ".join(cl))


def shape(r, d, names):
    """A deconstruction pattern with fresh names."""
    if d == 0 or r.random() < 0.35:
        if r.random() < 0.2:
            return "_"
        n = "n%d" % len(names)
        names.append(n)
        return n
    k = r.choice([1, 2, 2, 3, 4])
    xs = [shape(r, d - 1, names) for _ in range(k)]
    tail = ""
    if r.random() < 0.35:
        n = "n%d" % len(names)
        names.append(n)
        tail = " . " + n
    return "(%s%s)" % (" ".join(xs), tail)


def fit(pat, r):
    """A value for the pattern: of its shape, shorter or longer."""
    p = M.read_all(pat)[0]

    def go(q):
        if isinstance(q, M.Pair):
            if r.random() < 0.08:
                return r.choice([M.NIL, leaf(r)])
            return M.Pair(go(q.car), go(q.cdr))
        if q is M.NIL:
            return M.NIL if r.random() < 0.9 else M.from_list([leaf(r)])
        return datum(r, r.choice([0, 0, 1]))
    for _ in range(50):
        v = go(p)
        if okdatum(v) and not has_func_shape(v):
            return v
    return M.NIL


def decon_case(r, i):
    names = []
    pat = shape(r, r.choice([1, 2, 3]), names)
    v = "(car '(%s))" % text(fit(pat, r))
    body = "(list %s)" % " ".join(names) if names else "0"
    x = r.randrange(4)
    if x == 0 and pat not in ("_",):
        return ["(let ((%s . %s)) %s)" % (pat, v, body)]
    if x == 1:
        n2 = len(names)
        pat2 = shape(r, 1, names)
        v2 = "(car '(%s))" % text(fit(pat2, r))
        if r.random() < 0.5 and n2:
            v2 = names[0]
        body = "(list %s)" % " ".join(names) if names else "0"
        if "_" in (pat, pat2):
            return ["((\\ (%s %s) %s) %s %s)" % (pat, pat2, body, v, "5")]
        return ["(let ((%s . %s) (%s . %s)) %s)" % (pat, v, pat2, v2, body)]
    if x == 2:
        n2 = len(names)
        pat2 = shape(r, 2, names)
        v2 = "(car '(%s))" % text(fit(pat2, r))
        body = "(list %s)" % " ".join(names) if names else "0"
        f = "(\\ (%s %s) %s)" % (pat, pat2, body)
        return [r.choice(["(%s %s %s)", "((%s %s) %s)"]) % (f, v, v2)]
    f = "fn%d" % i
    return ["(def %s (%s) %s)" % (f, pat, body), "(%s %s)" % (f, v),
            "(%s %s)" % (f, "(car '(%s))" % text(fit(pat, r))), "(list n0 n1)"]


def make(i):
    r = chk.rng(i)
    k = i % 5
    if k < 2:
        return ["0"] + [match_case(r) for _ in range(6)]
    if k == 2:
        return DEFS + [cond_case(r) for _ in range(6)]
    return [e for j in range(6) for e in decon_case(r, j)]


cases = D.generate(chk, make, chk.n(12000, 80000), lib=False)
for c in cases[:5]:
    chk.sample("\n".join(c[1][:6]) + "\n-- expected --\n" + c[2].decode("latin-1")[:500])
for c in cases:
    chk.count("results_observed", len(c[1]))
    for t in ("match", "cond", "let"):
        chk.count("forms:" + t, sum(e.count("(" + t) for e in c[1]))
D.run_batches(chk, cases, ["asan", "rel"], per=25, header="(load 'std 'logic 'math 'io)\n", leaks=True)
chk.finish(minimum=chk.n(1000, 10000))
