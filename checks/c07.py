#!/usr/bin/env python3
"""C07: print writes the documented notation, which reads back as the same value."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import harness as H
import model as M

chk = H.Check("C07")
chk.rule = ("generated values (all atom types, nested and dotted lists, text lengths swept across the output buffer "
            "with every kind of token at the boundary) are printed to stdout, to files and prin-ted; the bytes are "
            "compared with an independent printer, read back with read and compared with = ; distinct values counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
HEAD = "(load 'std 'io 'logic 'math)\n"


def lit(x, r):
    """An expression that gives the value, by a literal or by construction."""
    toks = []
    if isinstance(x, M.Pair) and M.is_string(x):
        return '"%s"' % X.escape(M.to_bytes(x), r).decode("latin-1")
    if has_odd(x) or r.random() < 0.2:
        return build(x, r)
    X.tokens(x, r, toks)
    return "(car '(%s))" % X.lay(toks, r, "flat").decode("latin-1")


def has_odd(x):
    """Characters that have no notation of their own."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, M.Pair):
            st += [y.car, y.cdr]
        elif X.unlexable(y):
            return True
    return False


def build(x, r, depth=0):
    if isinstance(x, M.Pair):
        if depth > 30 or r.random() < 0.3 and not has_odd(x):
            if not has_odd(x):
                toks = []
                X.tokens(x, r, toks)
                return "(car '(%s))" % X.lay(toks, r, "flat").decode("latin-1")
        if isinstance(x.car, M.Char) and M.is_string(x):
            return '"%s"' % X.escape(M.to_bytes(x), r).decode("latin-1")
        return "(cons %s %s)" % (build(x.car, r, depth + 1), build(x.cdr, r, depth + 1))
    if isinstance(x, M.Char):
        return "(chr %d)" % (x.v & 0xff)
    if isinstance(x, M.Sym):
        return "'" + x.name
    return M.show(x).decode("latin-1")


def odd_value(r):
    """A value with characters that only occur inside computed strings."""
    n = r.choice([1, 2, 3, 8])
    return M.from_list([M.Char(r.randrange(1, 256)) if r.random() < 0.7 else X.atom(r) for _ in range(n)],
                       r.choice([M.NIL, M.NIL, M.Char(r.randrange(1, 256))]))


def boundary(r):
    """The text of the first part ends near a multiple of the buffer size."""
    size = r.choice([1024, 1024, 1024, 2048, 4096, 512, 8192]) + r.randrange(-26, 6)
    first = []
    left = size - 1
    while left > 0:
        n = left - 1 if left <= 17 else r.randrange(1, 16)
        if n <= 0:
            break
        if n > 16:
            n = 8
        first.append(M.sym("s" * n))
        left -= n + 1
    tail = [r.choice([X.atom(r), r.choice(X.NUMS), M.sym("z" * 16), M.Char(r.choice([92, 10, 27, 65])),
                      M.Pair(1, 2), M.from_list([M.NIL, M.T, M.WILD]), M.Pair(M.QUOTE, M.sym("q"))])
            for _ in range(r.choice([1, 2, 3, 9]))]
    if r.random() < 0.3:
        return M.from_list(first + tail, r.choice([X.number(r), M.sym("e" * 16), M.T]))
    return M.from_list(first + tail)


def value(r):
    x = r.random()
    if x < 0.45:
        return X.datum(r, r.choice([0, 1, 2, 3, 4]))
    if x < 0.55:
        return odd_value(r)
    if x < 0.85:
        return boundary(r)
    k = r.choice(["string", "list", "nest", "dots", "left"])
    return X.big(r, k, {"string": r.choice([200, 511, 512, 1023, 1024, 1025, 3000]), "list": r.choice([100, 700]),
                        "nest": r.choice([30, 300]), "dots": 200, "left": 100}[k])


def one(i):
    r = chk.rng(i)
    xs = [value(r) for _ in range(8)]
    prog = [HEAD]
    want = []
    files = {}
    for k, x in enumerate(xs):
        y = xs[r.randrange(len(xs))]
        prog.append("(setq -a- %s)" % lit(x, r))
        prog.append("(setq -b- %s)" % lit(x, r))
        prog.append("(setq -c- %s)" % lit(y, r))
        if x is M.NIL:      # setq of NIL leaves the name as it was
            prog.append("(<- '-a- NIL) (<- '-b- NIL)")
        if y is M.NIL:
            prog.append("(<- '-c- NIL)")
        how = r.randrange(4)
        sx, px, sy, py = M.show(x), M.plain(x), M.show(y), M.plain(y)
        if how == 0:
            prog.append('(setq -r- (list (print -a-))) (prin "\x01\n") (printl (= (car -r-) -b-))')
            want.append(sx + b"\x01\nT\n")
        elif how == 1:
            prog.append('(setq -r- (list (printl -a- -c- -a-))) (prin "\x01\n") (printl (= (car -r-) -b-))')
            want.append(sx + b" " + sy + b" " + sx + b"\n\x01\nT\n")
        elif how == 2:
            prog.append('(setq -r- (list (prin -a- -c-))) (prin "\x01\n") (printl (= (car -r-) -c-))')
            want.append(px + py + b"\x01\nT\n")
        else:
            prog.append('(setq -r- (list (prinl -c- -a-))) (prin "\x01\n") (printl (= (car -r-) -b-))')
            want.append(py + px + b"\n\x01\nT\n")
        # through a file
        prog.append('(out "f%d" (print -a- -c-))' % k)
        files["f%d" % k] = sx + b" " + sy
        if not has_odd(x) and not has_odd(y):
            prog.append('(in "f%d" (print (= (read) -b-) (= (read) -c-)))' % k)
            want.append(b"T T")
            chk_rt.append(1)
        prog.append("(printl (= -a- -b-))")
        want.append(b"T\n")
        # into a pipe of the process: what is printed in pieces is read in one
        prog.append('(prin "\x01\n")')
        want.append(b"\x01\n")
    prog.append("T\n")
    text = "\n".join(prog).encode("latin-1")
    variant = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        open(os.path.join(d, "t.l"), "wb").write(text)
        res = H.run(DEST[variant], ["t.l"], cwd=d, timeout=60)
        got = {}
        for f in files:
            try:
                got[f] = open(os.path.join(d, f), "rb").read()
            except OSError:
                got[f] = None
    return variant, xs, text, b"".join(want), files, got, res


chk_rt = []
for variant, xs, text, want, files, got, res in H.pmap(one, range(chk.n(700, 15000))):
    for x in xs:
        chk.saw(M.show(x))
    chk.count("bytes_printed", len(want) + sum(map(len, files.values())))
    m = res.monitor()
    badf = [f for f in files if files[f] != got[f]]
    if m or res.timeout or res.out != want or badf:
        k = 0
        while k < min(len(want), len(res.out)) and want[k] == res.out[k]:
            k += 1
        d = "variant %s\nstdout differs at byte %d of %d\n-- expected --\n%s\n-- got --\n%s\n" % (
            variant, k, len(want), want[max(0, k - 200):k + 300].decode("latin-1"),
            res.out[max(0, k - 200):k + 300].decode("latin-1"))
        for f in badf[:2]:
            d += "-- file %s expected --\n%s\n-- got --\n%s\n" % (
                f, files[f][:1500].decode("latin-1"), (got[f] or b"<none>")[:1500].decode("latin-1"))
        chk.violation(m or ("hang" if res.timeout else "what is printed is not the value or does not read back"),
                      d + res.err[-1500:].decode("latin-1"), text)
chk.count("values_read_back", 2 * len(chk_rt))
chk.finish(minimum=chk.n(1000, 20000))
