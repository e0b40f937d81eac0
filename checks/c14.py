#!/usr/bin/env python3
"""C14: the library functions of share/mnml compute what they document."""
import functools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import diff as D
import harness as H
import model as M

chk = H.Check("C14")
chk.rule = ("each library function on generated arguments (lists of 0 to 60 elements of any kind, strings, association "
            "lists), with callbacks that print their arguments; the printed calls, the result and the arguments printed "
            "again afterwards are compared with a direct definition of each function in Python; with the source "
            "library and with the compiled iterators and manips loaded over it; distinct calls counted")
NIL, T = M.NIL, M.T
L, S = M.from_list, M.string
FILES = ("append args aton dedup erase filter flatten has http insert isort iter iter2 iterators join last manips merge "
         "ntoa orelse replc rev run split strlt term trim truncr").split()
HEAD = "(load 'std 'logic 'math 'io 'unix 'sys %s)\n" % " ".join('"@lib/%s.l"' % f for f in FILES)
HEADS = {"source": HEAD,
         "compiled": HEAD + "(load 'iterators 'manips)\n",
         # the order in which the files are loaded does not matter
         "reversed": "(load 'std 'logic 'math 'io 'unix 'sys %s)\n" % " ".join('"@lib/%s.l"' % f for f in FILES[::-1])}


def show(x):
    return M.show(x)


def boo(b):
    return T if b else NIL


class Case:
    """A call of a library function: named arguments, expected value, expected trace."""

    def __init__(self, fn):
        self.fn = fn
        self.vals = []
        self.trace = []

    def arg(self, x):
        self.vals.append(x)
        return "v%d" % len(self.vals)

    def text(self, call):
        names = ["v%d" % (i + 1) for i in range(len(self.vals))]
        if not names:
            return "(list %s)" % call
        return "((\\ (%s) (list %s %s)) %s)" % (" ".join(names), " ".join(reversed(names)), call,
                                               " ".join(quoted(v) for v in self.vals))

    def expected(self, v):
        return b"".join(self.trace) + b"=> " + show(L(list(reversed(self.vals)) + [v])) + b"\n"

    def tr(self, *xs):
        self.trace.append(b"[" + b" ".join(show(x) for x in xs) + b"]\n")


def quoted(x):
    """An expression whose value is x, whatever x contains."""
    if M.is_string(x) and x is not NIL and all(c and c != 34 and c != 92 for c in M.to_bytes(x)):
        return '"%s"' % M.to_bytes(x).decode("latin-1")
    return "(car '(%s))" % M.show(x).decode("latin-1")


def fine(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, M.Pair):
            st += [y.car, y.cdr]
        elif X.unlexable(y):
            return False
    return True


def elem(r):
    while True:
        x = X.datum(r, r.choice([0, 0, 0, 1, 2]))
        if fine(x):
            return x


def small(r):
    return r.choice([0, 1, 2, 3, -1, 10, M.sym("a"), M.sym("b"), M.Char(97), NIL, T, L([1, 2]), L([1]), M.Pair(1, 2),
                     S("ab"), S("a")])


def size(r):
    return r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 13, 60])


def lst(r, e=elem, n=None):
    return [e(r) for _ in range(size(r) if n is None else n)]


def atom(r):
    """Something that is not a list (the folds and maps say what they do with one)."""
    return r.choice([0, 1, -7, M.sym("a"), M.sym("xyz"), M.Char(97), T])


def one_atom(r):
    """A pair of arguments at least one of which is not a list."""
    k = r.randrange(3)
    return (atom(r) if k != 0 else L(lst(r))), (atom(r) if k != 1 else L(lst(r)))


def nums(r):
    return [r.randrange(-6, 12) if r.random() < 0.8 else X.number(r) for _ in range(size(r))]


def text(r, n=None, pool=b"abc ,;:x\t\n"):
    n = r.choice([0, 1, 2, 3, 5, 9, 30]) if n is None else n
    return bytes(r.choice(pool) for _ in range(n))


TRACE = '(prin "[") (print %s) (prinl "]") '


def lam(c, r, params, body, fun):
    """A callback, traced half of the time: (text, python function)."""
    if r.random() < 0.6:
        def f(*a):
            c.tr(*a)
            return fun(*a)
        return "(\\ (%s) %s%s)" % (params, TRACE % params, body), f
    return "(\\ (%s) %s)" % (params, body), fun


def fn1(c, r):
    k = r.randrange(7)
    if k == 0:
        return lam(c, r, "a0", "(list a0)", lambda a: L([a]))
    if k == 1:
        return lam(c, r, "a0", "(cons a0 1)", lambda a: M.Pair(a, 1))
    if k == 2:
        return lam(c, r, "a0", "a0", lambda a: a)
    if k == 3:
        return "nil?", lambda a: boo(a is NIL)
    if k == 4:
        return "(cons 7)", lambda a: M.Pair(7, a)
    if k == 5:
        return lam(c, r, "a0", "(num? a0)", lambda a: boo(isinstance(a, int)))
    return "((\\ (z0) (\\ (a0) (list z0 a0))) 5)", lambda a: L([5, a])


def pred(c, r):
    k = r.randrange(6)
    if k == 0:
        return lam(c, r, "a0", "(num? a0)", lambda a: isinstance(a, int))
    if k == 1:
        return lam(c, r, "a0", "(lst? a0)", lambda a: M.is_list(a))
    if k == 2:
        return "nil?", lambda a: a is NIL
    if k == 3:
        return "sym?", lambda a: isinstance(a, M.Sym)
    if k == 4:
        x = small(r)
        return lam(c, r, "a0", "(= a0 %s)" % quoted(x), lambda a: M.equ(a, x))
    return lam(c, r, "a0", "5", lambda a: True)


def fn2(c, r):
    k = r.randrange(5)
    if k == 0:
        return lam(c, r, "a0 b0", "(cons a0 b0)", M.Pair)
    if k == 1:
        return lam(c, r, "a0 b0", "(list b0 a0)", lambda a, b: L([b, a]))
    if k == 2:
        return "cons", M.Pair
    if k == 3:
        return lam(c, r, "a0 b0", "a0", lambda a, b: a)
    return lam(c, r, "a0 b0", "b0", lambda a, b: b)


def lessthan(c, r):
    """A strict order on numbers."""
    k = r.randrange(4)
    if k == 0:
        return "<", lambda a, b: a < b
    if k == 1:
        return ">", lambda a, b: a > b
    if k == 2:
        return lam(c, r, "a0 b0", "(< a0 b0)", lambda a, b: a < b)
    return lam(c, r, "a0 b0", "(< (% a0 5) (% b0 5))", lambda a, b: rem(a, 5) < rem(b, 5))


def rem(a, b):
    return a - b * int(abs(a) // b) * (1 if a >= 0 else -1)


def alist(r):
    return [M.Pair(small(r) if r.random() < 0.8 else elem(r), elem(r)) for _ in range(size(r))]


GEN = {}


def gen(f):
    GEN[f.__name__[2:]] = f
    return f


@gen
def g_foldl(c, r):
    f, py = fn2(c, r)
    acc, xs = elem(r), lst(r)
    if r.random() < 0.08:
        x = atom(r)
        a, b = c.arg(acc), c.arg(x)
        return "(foldl %s %s %s)" % (f, a, b), py(acc, x)
    a, b = c.arg(acc), c.arg(L(xs))
    return "(foldl %s %s %s)" % (f, a, b), functools.reduce(py, xs, acc)


@gen
def g_foldr(c, r):
    f, py = fn2(c, r)
    acc, xs = elem(r), lst(r)
    if r.random() < 0.08:
        x = atom(r)
        a, b = c.arg(x), c.arg(acc)
        return "(foldr %s %s %s)" % (f, a, b), py(x, acc)
    a, b = c.arg(L(xs)), c.arg(acc)
    return "(foldr %s %s %s)" % (f, a, b), functools.reduce(lambda y, x: py(x, y), xs[::-1], acc)


@gen
def g_map(c, r):
    f, py = fn1(c, r)
    if r.random() < 0.08:
        x = atom(r)
        return "(map %s %s)" % (f, c.arg(x)), x
    xs = lst(r)
    return "(map %s %s)" % (f, c.arg(L(xs))), L([py(x) for x in xs])


@gen
def g_map2(c, r):
    f, py = fn2(c, r)
    if r.random() < 0.1:
        x, y = one_atom(r)
        return "(map2 %s %s %s)" % (f, c.arg(x), c.arg(y)), NIL
    xs, ys = lst(r), lst(r)
    if r.random() < 0.5:
        ys = lst(r, n=len(xs))
    return "(map2 %s %s %s)" % (f, c.arg(L(xs)), c.arg(L(ys))), L([py(x, y) for x, y in zip(xs, ys)])


@gen
def g_zip(c, r):
    if r.random() < 0.1:
        x, y = one_atom(r)
        return "(zip %s %s)" % (c.arg(x), c.arg(y)), NIL
    xs, ys = lst(r), lst(r)
    if r.random() < 0.5:
        ys = lst(r, n=len(xs))
    return "(zip %s %s)" % (c.arg(L(xs)), c.arg(L(ys))), L([M.Pair(x, y) for x, y in zip(xs, ys)])


@gen
def g_append(c, r):
    n = r.choice([1, 2, 2, 3, 4])
    xss = [lst(r) for _ in range(n)]
    names = [c.arg(L(xs)) for xs in xss]
    return "(append %s)" % " ".join(names), L(sum(xss, []))


@gen
def g_plus(c, r):
    x, y = lst(r), lst(r)
    return "($+ %s %s)" % (c.arg(L(x)), c.arg(L(y))), L(x + y)


@gen
def g_rev(c, r):
    xs = lst(r)
    return "(rev %s)" % c.arg(L(xs)), L(xs[::-1])


@gen
def g_filter(c, r):
    f, py = pred(c, r)
    xs = lst(r)
    # the list is scanned from its end
    keep = [x for x in xs[::-1] if not py(x)][::-1]
    return "(filter %s %s)" % (f, c.arg(L(xs))), L(keep)


def flat(x):
    if isinstance(x, M.Pair):
        return sum((flat(y) for y in M.to_list(x)), [])
    return [x]


@gen
def g_flatten(c, r):
    def nest(d):
        if d == 0 or r.random() < 0.4:
            return r.choice([X.number(r), M.sym("abc"), M.Char(100), NIL, T, M.WILD])
        return L([nest(d - 1) for _ in range(r.choice([1, 1, 2, 3, 5]))])
    x = L([nest(4) for _ in range(size(r))])
    return "(flatten %s)" % c.arg(x), L(flat(x))


@gen
def g_has(c, r):
    xs = lst(r, r.choice([small, elem]))
    x = r.choice(xs) if xs and r.random() < 0.5 else small(r)
    return "(has %s %s)" % (c.arg(L(xs)), c.arg(x)), boo(any(M.equ(x, y) for y in xs))


def insert(py, a, xs):
    for i, x in enumerate(xs):
        if py(a, x):
            return xs[:i] + [a] + xs[i:]
    return xs + [a]


@gen
def g_insert(c, r):
    f, py = lessthan(c, r)
    xs, a = nums(r), r.randrange(-6, 12)
    if r.random() < 0.5:
        xs = sorted(xs)
    return "(insert %s %s %s)" % (f, c.arg(a), c.arg(L(xs))), L(insert(py, a, xs))


@gen
def g_isort(c, r):
    f, py = r.choice([("<", lambda a, b: a < b), (">", lambda a, b: a > b),
                      ("(\\ (a0 b0) (< (% a0 5) (% b0 5)))", lambda a, b: rem(a, 5) < rem(b, 5))])
    xs = nums(r)
    out = sorted(xs, key=functools.cmp_to_key(lambda a, b: -1 if py(a, b) else (1 if py(b, a) else 0)))
    return "(isort %s %s)" % (f, c.arg(L(xs))), L(out)


@gen
def g_isort_str(c, r):
    xs = [text(r, r.choice([0, 1, 2, 5]), b"ab") for _ in range(size(r))]
    return "(isort strlt %s)" % c.arg(L([S(x) for x in xs])), L([S(x) for x in sorted(xs)])


@gen
def g_iter(c, r):
    f, py = fn1(c, r)
    xs = lst(r)
    v = NIL
    for x in xs:
        v = py(x)
    return "(iter %s %s)" % (f, c.arg(L(xs))), v


@gen
def g_iter2(c, r):
    f, py = fn2(c, r)
    xs, ys = lst(r), lst(r)
    if r.random() < 0.5:
        ys = lst(r, n=len(xs))
    v = NIL
    for x, y in zip(xs, ys):
        v = py(x, y)
    return "(iter2 %s %s %s)" % (f, c.arg(L(xs)), c.arg(L(ys))), v


@gen
def g_join(c, r):
    ss = [text(r) for _ in range(size(r))]
    ch = r.choice(b" ,:x")
    return "(join %s %s)" % (c.arg(L([S(s) for s in ss])), c.arg(M.Char(ch))), S(bytes([ch]).join(ss))


@gen
def g_split(c, r):
    s = text(r)
    ch = r.choice(b" ,:x")
    return "(split %s %s)" % (c.arg(S(s)), c.arg(M.Char(ch))), L([S(x) for x in s.split(bytes([ch])) if x])


@gen
def g_last(c, r):
    xs = lst(r)
    return "(last %s)" % c.arg(L(xs)), xs[-1] if xs else NIL


@gen
def g_assoc(c, r):
    al = alist(r)
    k = r.choice(al).car if al and r.random() < 0.6 else small(r)
    # the key NIL is what the head of an entry that is not there looks like
    v = next((p.cdr for p in al if M.equ(p.car, k)), NIL)
    return "(assoc %s %s)" % (c.arg(k), c.arg(L(al))), v


@gen
def g_replc(c, r):
    al = alist(r)
    k = r.choice(al).car if al and r.random() < 0.6 else small(r)
    v = elem(r)
    return "(replc %s %s %s)" % (c.arg(k), c.arg(v), c.arg(L(al))), L([M.Pair(p.car, v) if M.equ(p.car, k) else p
                                                                      for p in al])


@gen
def g_erase(c, r):
    al = alist(r)
    k = r.choice(al).car if al and r.random() < 0.6 else small(r)
    return "(erase %s %s)" % (c.arg(k), c.arg(L(al))), L([p for p in al if not M.equ(p.car, k)])


def car(x):
    return x.car if isinstance(x, M.Pair) else NIL


def cdr(x):
    return x.cdr if isinstance(x, M.Pair) else NIL


@gen
def g_cxr(c, r):
    n = r.choice(["caar", "cddr", "cadar", "caddr", "cadddr", "cadr", "cdar"])
    x = L([L(lst(r, n=r.choice([0, 1, 2, 3]))) if r.random() < 0.6 else elem(r) for _ in range(r.choice([0, 1, 2, 3, 4, 6]))])
    v = x
    for ch in reversed(n[1:-1]):
        if v is not NIL and not isinstance(v, M.Pair):
            return None             # the car of an atom
        v = car(v) if ch == "a" else cdr(v)
    return "(%s %s)" % (n, c.arg(x)), v


@gen
def g_rep(c, r):
    n, x = r.choice([-3, 0, 0, 1, 2, 5, 40]), elem(r)
    return "(rep %s %s)" % (c.arg(n), c.arg(x)), L([x] * max(n, 0))


@gen
def g_truncl(c, r):
    xs = lst(r)
    n = r.randrange(len(xs) + 1) if r.random() < 0.9 else -2
    return "(truncl %s %s)" % (c.arg(n), c.arg(L(xs))), L(xs[:max(n, 0)])


@gen
def g_truncr(c, r):
    xs = lst(r)
    n = r.randrange(len(xs) + 1)
    return "(truncr %s %s)" % (c.arg(n), c.arg(L(xs))), L(xs[len(xs) - n:])


@gen
def g_dedup(c, r):
    k = r.randrange(3)
    xs = nums(r)
    if k == 0:
        f, py = lam(c, r, "a0 b0", "(if (= a0 b0) (list 'SKIP) (cons 'APPEND a0))",
                    lambda a, b: ("S", None) if a == b else ("A", a))
    elif k == 1:
        f, py = lam(c, r, "a0 b0", "(if (< a0 b0) (cons 'REPLACE (+ a0 b0)) (cons 'APPEND a0))",
                    lambda a, b: ("R", M.wrap64(a + b)) if a < b else ("A", a))
    else:
        f, py = lam(c, r, "a0 b0", "(if (= (% a0 3) 0) (list 'SKIP) (if (= (% a0 3) 1) (cons 'REPLACE a0) (cons 'APPEND (* 2 a0))))",
                    lambda a, b: ("S", None) if rem(a, 3) == 0 else ("R", a) if rem(a, 3) == 1 else
                    ("A", M.wrap64(2 * a)))
    acc = []
    for x in xs[::-1]:
        if not acc:
            acc = [x]
            continue
        cmd, v = py(x, acc[0])
        acc = acc if cmd == "S" else [v] + acc if cmd == "A" else [v] + acc[1:]
    return "(dedup %s %s)" % (f, c.arg(L(xs))), L(acc)


@gen
def g_merge(c, r):
    xs, ys = nums(r), sorted(nums(r))
    out = ys
    for x in xs:
        out = insert(lambda a, b: a < b, x, out)
    k = r.randrange(3)
    a, b = c.arg(L(xs)), c.arg(L(ys))
    if k == 0:
        return "(merge (\\ (a0) a0) (insert <) %s %s)" % (a, b), L(out)
    if k == 1:
        return "(merge rev (insert <) %s %s)" % (a, b), L(out[::-1])
    res = []
    for x in out[::-1]:
        if not res or res[0] != x:
            res = [x] + res
    return ("(merge (dedup (\\ (a0 b0) (if (= a0 b0) (list 'SKIP) (cons 'APPEND a0)))) (insert <) %s %s)" % (a, b), L(res))


@gen
def g_strlt(c, r):
    a = text(r, None, b"abc")
    x = r.random()
    b = text(r, None, b"abc") if x < 0.4 else a + text(r, 2) if x < 0.6 else a[:-1] if x < 0.8 else a
    return "(strlt %s %s)" % (c.arg(S(a)), c.arg(S(b))), boo(a < b)


@gen
def g_trim(c, r):
    s = text(r, None, b"ab \t\n\r")
    n = r.choice(["trim", "triml", "trimr"])
    v = {"trim": s.strip, "triml": s.lstrip, "trimr": s.rstrip}[n](b" \t\n\r")
    return "(%s %s)" % (n, c.arg(S(s))), S(v)


CODES = {"normal": "0", "bold": "1", "italic": "3", "underlined": "4", "reversed": "7", "striked": "9", "black": "0;30",
         "red": "0;31", "green": "0;32", "orange": "0;33", "blue": "0;34", "purple": "0;35", "cyan": "0;36",
         "gray+": "0;37", "gray-": "1;30", "red+": "1;31", "green+": "1;32", "yellow": "1;33", "blue+": "1;34",
         "purple+": "1;35", "cyan+": "1;36", "white": "1;37"}


@gen
def g_term(c, r):
    s = text(r)
    if r.random() < 0.7:
        n = r.choice(sorted(CODES))
        return "(term:%s %s)" % (n, c.arg(S(s))), S(b"\x1b[" + CODES[n].encode() + b"m" + s + b"\x1b[0m")
    k = r.choice([b"1", b"0;35", b"38;5;12"])
    return "(term:esc %s %s)" % (c.arg(S(k)), c.arg(S(s))), S(b"\x1b[" + k + b"m" + s + b"\x1b[0m")


@gen
def g_pad(c, r):
    s = text(r)
    n = max(0, len(s) + r.choice([-5, -2, -1, 0, 1, 2, 10, 40]))
    if r.random() < 0.5:
        return "(term:left %s %s)" % (c.arg(n), c.arg(S(s))), S((s + b" " * n)[:n])
    return "(term:right %s %s)" % (c.arg(n), c.arg(S(s))), S((b" " * n + s)[len(s):] if n >= len(s) else s[len(s) - n:])


def natural(r):
    x = r.random()
    return r.randrange(0, 120) if x < 0.5 else r.choice([0, 9, 10, 99, 100, 1000, 10 ** 18, (1 << 63) - 1]) if x < 0.8 else \
        r.randrange(1 << 63)


@gen
def g_ntoa(c, r):
    n = natural(r)
    return "(ntoa %s)" % c.arg(n), S(str(n))


@gen
def g_aton(c, r):
    n = natural(r)
    s = str(n) if r.random() < 0.8 else "00" + str(n)
    return "(aton %s)" % c.arg(S(s)), n


@gen
def g_ntoaton(c, r):
    n = natural(r)
    return "(aton (ntoa %s))" % c.arg(n), n


@gen
def g_orelse(c, r):
    a, b = elem(r), elem(r)
    return "(<|> %s %s)" % (c.arg(a), c.arg(b)), b if a is NIL else a


@gen
def g_skip(c, r):
    xs = lst(r)
    n = r.choice([0, 1, 2, len(xs), len(xs) + 2, 3])
    return "(args:skip %s %s)" % (c.arg(L(xs)), c.arg(n)), L(xs[n:])


@gen
def g_white(c, r):
    ch = r.choice([32, 9, 10, 13] + list(range(33, 127)))
    return "(whitespace? %s)" % c.arg(M.Char(ch)), boo(ch in (32, 9, 10, 13))


@gen
def g_compose(c, r):
    """Library functions called from the callbacks of library functions."""
    k = r.randrange(7)
    xss = [lst(r) for _ in range(r.choice([0, 1, 2, 4]))]
    v = L([L(xs) for xs in xss])
    a = c.arg(v)
    if k == 0:
        return "(map rev %s)" % a, L([L(xs[::-1]) for xs in xss])
    if k == 1:
        return "(map (map (\\ (a0) (list a0))) %s)" % a, L([L([L([x]) for x in xs]) for xs in xss])
    if k == 2:
        return "(foldl (\\ (p0 q0) (append p0 (rev q0))) NIL %s)" % a, L(sum((xs[::-1] for xs in xss), []))
    if k == 3:
        return ("(map (\\ (q0) (foldl (\\ (p1 q1) (cons q1 p1)) q0 q0)) %s)" % a, L([L(xs[::-1] + xs) for xs in xss]))
    if k == 4:
        return "(foldr (\\ (p0 q0) (cons (last p0) q0)) %s NIL)" % a, L([xs[-1] if xs else NIL for xs in xss])
    if k == 5:
        return "(|> %s (filter nil?) (map last) rev)" % a, L([xs[-1] for xs in xss if xs][::-1])
    return "(map (\\ (q0) (zip q0 (rev q0))) %s)" % a, L([L([M.Pair(x, y) for x, y in zip(xs, xs[::-1])]) for xs in xss])


# ---- the cases
NAMES = sorted(GEN)
weights = {"map": 3, "foldl": 3, "foldr": 3, "assoc": 2, "compose": 3, "cxr": 2}
POOL = [n for n in NAMES for _ in range(weights.get(n, 1))]


def make(i):
    r = chk.rng("case", i)
    while True:
        n = POOL[i % len(POOL)]
        c = Case(n)
        g = GEN[n](c, r)
        if g is None:
            continue
        call, v = g
        return i, [c.text(call)], c.expected(v), n


cases = []
for i in range(chk.n(12000, 150000)):
    i, e, exp, n = make(i)
    chk.count("fn:" + n)
    cases.append((i, e, exp))
chk.sample("\n".join(cases[k][1][0] for k in (3, 17, 55)))
third = len(cases) // 4
parts = {"source": cases[:2 * third], "compiled": cases[2 * third:3 * third + third // 2],
         "reversed": cases[3 * third + third // 2:]}
# every function in every mode
for k, cs in parts.items():
    D.run_batches(chk, cs, ["asan", "rel"], per=80, header=HEADS[k], leaks=True, timeout=60)
    chk.count("mode:" + k, len(cs))


# ---- each file of the library on its own: it loads what it needs
HOME_OF = {}
for f in FILES:
    with open(os.path.join(H.REPO, "share/mnml", f + ".l"), encoding="latin-1") as fh:
        for m in re.finditer(r"^\(def (\S+)", fh.read(), re.M):
            HOME_OF.setdefault(m.group(1), f)
BUILTIN = {n: m for m, ns in {
    "std": "\\ car cdr cons list nil? num? sym? lst? chr? str? if cond match let prog len", "logic": "= <> and or not",
    "math": "+ - * / % < > <= >=", "io": "prin print prinl"}.items() for n in ns.split()}


def alone(i):
    r = chk.rng("alone", i)
    while True:
        n = POOL[i % len(POOL)]
        c = Case(n)
        g = None if n == "compose" else GEN[n](c, r)
        i += len(POOL) + 1
        if g is None:
            continue
        call, v = g
        words = re.findall(r"[^\s()']+", re.sub(r'"[^"]*"', " ", call))
        mine = sorted({HOME_OF[w] for w in words if w in HOME_OF})
        if len(mine) == 1:
            break
    # the callbacks need what they need; the arguments are quoted
    need = {}
    for w in words:
        if w in BUILTIN:
            need.setdefault(BUILTIN[w], set()).add(w)
    need.setdefault("io", set()).add("printl")
    call = re.sub(r"\bv(\d+)\b", lambda m: bare(c.vals[int(m.group(1)) - 1]), call)
    text = '(load "@lib/%s.l" %s)\n(printl %s)\nT\n' % (
        mine[0], " ".join("'(%s %s)" % (k, " ".join(sorted(x))) for k, x in sorted(need.items())), call)
    out = b"".join(c.trace) + show(v) + b"\n"
    variant = r.choice(["asan", "rel"])
    with H.Scratch() as d:
        p = os.path.join(d, "a.l")
        with open(p, "wb") as fh:
            fh.write(text.encode("latin-1"))
        return n, mine[0], text, out, H.run(DEST[variant], ["-d", "a.l"], cwd=d)


def bare(x):
    """An expression for x that needs no built-in but quote."""
    if isinstance(x, (M.Sym, M.Pair)):
        return "'" + M.show(x).decode("latin-1")
    return M.show(x).decode("latin-1")


DEST = {v: chk.build(v) for v in ("asan", "rel")}
for n, f, text_, out, res in H.pmap(alone, range(chk.n(800, 12000))):
    chk.saw(text_)
    chk.count("alone:" + f)
    if res.out != out or res.monitor() or res.timeout:
        chk.violation("%s.l loaded alone: %s differs" % (f, n), "-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
            out.decode("latin-1"), res.out.decode("latin-1"), res.err[-2000:].decode("latin-1")), text_)


# ---- test suites: what test:run and the assertions of test.l report
ESC = b"\x1b[%sm"


def paint(code, t):
    return b"\x1b[%sm" % code + t + b"\x1b[0m"


def suitecase(i):
    r = chk.rng("suite", i)
    tests = []

    def simple():
        while True:
            x = small(r) if r.random() < 0.7 else elem(r)
            if x is not NIL and fine(x):
                return x
    names = ["one", "a", "longer_name", "x y", "t2", "t-3", "zz", "verylongname" * 3]
    r.shuffle(names)
    for k in range(r.choice([0, 1, 2, 3, 5, 8])):
        name = names[k] if r.random() < 0.93 else names[0]
        x = r.random()
        out = b""
        if x < 0.15:
            v = r.choice([T, 5, S("abc"), M.Char(97), M.sym("T2")])
            body, val = {T: "T"}.get(v) or show_arg(v), v
        elif x < 0.3:
            val = r.choice([T, NIL, 3])
            body = '(prog (prinl "in %s") %s)' % (name, show(val).decode())
            out = b"in " + name.encode() + b"\n"
        elif x < 0.7:
            a = simple()
            b = a if r.random() < 0.6 else simple()
            if r.random() < 0.3:
                n = r.randrange(50)
                a, b, got = n + 1, (n if r.random() < 0.4 else n + 1), None
                body = "(assert:equal %d (+ %d 1))" % (a, b)
                b += 1
            else:
                body = "(assert:equal %s %s)" % (quoted(a), quoted(b))
            val = boo(M.equ(a, b))
            if val is NIL:
                out = paint(b"0;31", b"> FAILED ") + b"\n! " + paint(b"4", b"Expect") + b": " + show(a) + b"\n! " + \
                    paint(b"4", b"Actual") + b": " + show(b) + b"\n"
        else:
            pr, f = r.choice([("num?", lambda v: isinstance(v, int)), ("chr?", lambda v: isinstance(v, M.Char)),
                              ("sym?", lambda v: isinstance(v, M.Sym))])
            v = simple()
            if not f(v):
                v = {"num?": r.randrange(99), "chr?": M.Char(98), "sym?": M.sym("k")}[pr]
            body, val = "(assert:predicate %s %s)" % (pr, quoted(v)), T
        tests.append((name, body, val, out))
    suite = r.choice(["S", "my suite", "Some (tests)"])
    argv, todo, mode = [], [t[0] for t in tests], "run"
    if r.random() < 0.3:
        todo = [r.choice([t[0] for t in tests] + ["none", "a"]) for _ in range(r.choice([1, 2, 4]))]
        argv = ["-t", ",".join(todo)]
    elif r.random() < 0.25:
        argv, mode = r.choice([(["-l"], "list"), (["-h"], "help")])
    out = b"\x1b[1m[\x1b[0m" + paint(b"1", suite.encode()) + b"\x1b[1m]\x1b[0m\n"
    width = max([len(n) for n in todo] + [0])
    ok = True
    if mode == "help":
        out = (b"Usage: s.l [-l|-t test1,test2,...|-h] \n\n  -l  List available tests\n"
               b"  -t  Comma-separated list of tests\n  -h  Print this help\n")
    elif mode == "list":
        out += b"".join(b"- " + n.encode().ljust(width) + b"\n" for n in todo)
    else:
        for n in todo:
            t = next((t for t in tests if t[0] == n), None)
            pad = n.encode().ljust(width)
            if t is None or t[1] == "NIL":
                ok = False
                out += b"! " + pad + b": " + paint(b"0;31", b"not found") + b"\n"
                continue
            out += t[3]
            if t[2] is T:
                out += b"\xe2\x9c\x93 " + pad + b": " + paint(b"0;32", b"passed") + b"\n"
            else:
                ok = False
                out += b"! " + pad + b": " + paint(b"0;31", b"failed") + b"\n"
    text = '(load "@lib/test.l" \'(std num? chr? sym? quote) \'(math +))\n(test:run "%s"\n%s)\n' % (
        suite, "\n".join('  ("%s" . %s)' % (n, b) for n, b, _, _ in tests))
    variant = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        with open(os.path.join(d, "s.l"), "wb") as fh:
            fh.write(text.encode("latin-1"))
        return mode, text, argv, out, 0 if ok else 255, H.run(DEST[variant], ["s.l"] + argv, cwd=d)


def show_arg(x):
    return quoted(x) if isinstance(x, M.Pair) else "'" + show(x).decode() if isinstance(x, M.Sym) else show(x).decode("latin-1")


for mode, text_, argv, out, rc, res in H.pmap(suitecase, range(chk.n(300, 4000))):
    chk.saw(text_ + " ".join(argv))
    chk.count("suites:" + mode)
    if res.out != out or res.monitor() or res.timeout or (mode == "run" and res.rc != rc):
        chk.violation("test suite (%s %s): %s" % (mode, " ".join(argv), "wrong exit status" if res.out == out else "wrong report"),
                      "rc %s, expected %s\n-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
                          res.rc, rc, out.decode("latin-1"), res.out.decode("latin-1"), res.err[-2000:].decode("latin-1")), text_)


# ---- options, through the command line
DEST = {v: chk.build(v) for v in ("asan", "rel")}


def optcase(i):
    r = chk.rng("args", i)
    opts = {}
    for k in range(r.choice([1, 2, 4])):
        opts["-%s" % "abcdefgh"[k] if r.random() < 0.7 else "--opt%d" % k] = r.choice([0, 0, 1, 1, 2, 3])
    body = []
    for o, n in opts.items():
        ps = ["w%d" % j for j in range(n)]
        body.append('("%s" . (\\ (%s) (prinl "%s" %s) %s))' % (
            o, " ".join(ps), o, " ".join('"|" ' + p for p in ps), r.choice(["T", "NIL", "5"])))
    head = r.choice([HEAD, '(load "@lib/args.l" \'(io prinl printl) \'(std \\))\n'])
    text = head + "(printl (args:parse '(%s)))\nT\n" % "\n".join(body)
    argv, out, res = [], b"", NIL
    fail = False
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        if r.random() < 0.08:
            argv.append("-z")
            out += b"Unknown flag: -z\n"
            fail = True
            break
        o = r.choice(sorted(opts))
        vals = [r.choice(["x", "a b", "-y", "", "12", "(", "'q", "long" * 20]) for _ in range(opts[o])]
        if vals and r.random() < 0.08:
            vals.pop()
            argv += [o] + vals
            out += b"Not enough values for flag: %s\n" % o.encode()
            fail = True
            break
        argv += [o] + vals
        out += o.encode() + b"".join(b"|" + v.encode() for v in vals) + b"\n"
        res = M.Pair(S(o), res)
    out += show(NIL if fail else res) + b"\n"
    variant = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        p = os.path.join(d, "o.l")
        open(p, "w").write(text)
        return text, argv, out, H.run(DEST[variant], ["-d", "o.l"] + argv, cwd=d)


for text_, argv, out, res in H.pmap(optcase, range(chk.n(150, 3000))):
    chk.saw(repr((text_, argv)))
    chk.count("command_lines")
    if res.out != out or res.monitor() or res.timeout:
        chk.violation("args:parse differs", "argv %r\n-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
            argv, out.decode("latin-1"), res.out.decode("latin-1"), res.err[-2000:].decode("latin-1")), text_)


# ---- HTTP requests and responses read from a file
def httpcase(i):
    r = chk.rng("http", i)
    nl = r.choice(["\n", "\r\n"])
    hs = []
    for k in range(r.choice([0, 1, 2, 5, 20])):
        v = r.choice(["close", "text/html", "localhost:8080", "a b c", "http://x:1/y:z", "1", "q=1;r=2"])
        hs.append(("H%d" % k if r.random() < 0.8 else "X-Long-Header-%d" % k, v))
    want = L([M.Pair(S(a), S(b)) for a, b in hs])
    head = "".join(a + r.choice([":", ": ", " : ", ":\t"]) + b + r.choice(["", "", " "]) + nl for a, b in hs)
    end = nl if r.random() < 0.8 else ""
    if i % 2:
        op, path = r.choice(["GET", "POST", "PUT"]), r.choice(["/", "/a/b", "/x?y=1&z=2", "/" + "p" * 200])
        ok = r.random() < 0.8
        body = "%s%s%s%s%s%s%s" % (op, r.choice([" ", "  "]), path, " ", "HTTP/1.1" if ok else r.choice(["HTTP/1.0", "HTTP/1.1 x"]), nl, head)
        call = "(http/request)"
        v = L([S(op), S(path), want, NIL]) if ok else NIL
        pre = b"" if ok else b"Invalid HTTP request\n"
    else:
        code = r.choice(["200", "404", "500"])
        mesg = r.choice(["OK", "Not Found", "Internal Server Error"])
        ok = r.random() < 0.8
        body = "%s %s %s%s%s" % ("HTTP/1.1" if ok else "HTTP/1.0", code, mesg, nl, head)
        call = "(http/response)"
        v = L([S(code), S(mesg), want]) if ok else NIL
        pre = b"" if ok else b"Invalid HTTP response\n"
    body += end
    rest = ""
    if end and ok:
        rest = "next line" + nl
        body += rest
    text = r.choice([HEAD, '(load "@lib/http.l" \'(io in printl readline))\n']) + '(in "req" (printl %s) (printl (readline)))\nT\n' % call
    out = pre + show(v) + b"\n"
    with H.Scratch() as d:
        open(os.path.join(d, "o.l"), "w").write(text)
        open(os.path.join(d, "req"), "w", newline="").write(body)
        res = H.run(DEST[("asan", "rel")[i // 2 % 2]], ["-d", "o.l"], cwd=d)
    if ok and rest:
        out += show(S(rest[:-1])) + b"\n"
    elif ok:
        out += b"EOF\n"
    else:
        out = out if res.out.startswith(out) else out
        out += res.out[len(out):] if res.out.startswith(out) else b""
    return text, body, out, res


for text_, body, out, res in H.pmap(httpcase, range(chk.n(150, 3000))):
    chk.saw(repr(body))
    chk.count("http_messages")
    if res.out != out or res.monitor() or res.timeout:
        chk.violation("http message read differently", "message %r\n-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
            body, out.decode("latin-1"), res.out.decode("latin-1"), res.err[-2000:].decode("latin-1")), text_)
chk.finish(minimum=chk.n(2000, 20000))
