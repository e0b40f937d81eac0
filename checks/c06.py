#!/usr/bin/env python3
"""C06: the reader: layout, cuts and the way the text arrives do not matter."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import harness as H
import model as M

chk = H.Check("C06")
chk.rule = ("generated data written in a random layout (spaces, newlines, comments, cuts inside strings, several "
            "expressions per line) and delivered by load, in/read of a file, in/read of a pipe in pieces, the prompt "
            "in pieces, and -e; the data printed back is compared with the independent printer; distinct texts counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
LOAD = b"(load 'std 'io)\n"
READY = b"(car '(ready))\n"


def make(i):
    r = chk.rng(i)
    n = r.choice([1, 2, 3, 5, 12])
    x = r.random()
    if x < 0.12:
        k = r.choice(["string", "list", "nest", "dots", "left"])
        size = {"string": r.choice([200, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 20000]),
                "list": r.choice([100, 900, 2500]), "nest": r.choice([30, 90, 110, 300, 700]), "dots": 400,
                "left": r.choice([60, 150])}[k]
        ds = [X.datum(r, 2), X.big(r, k, size), X.datum(r, 2)]
    else:
        ds = [X.datum(r, r.choice([0, 1, 2, 3, 4])) for _ in range(n)]
    return r, ds


def wrap(ds, r, style, form):
    """Text of the program or data, one item per datum."""
    toks = []
    for k, d in enumerate(ds):
        if form == "bare":
            X.tokens(d, r, toks)
        else:
            pre = {"printl": [b"(", b"printl", b"(", b"car"], "value": [b"(", b"car"]}[form]
            toks += pre + [b"'("]
            X.tokens(d, r, toks)
            toks += [b")"] + [b")"] * pre.count(b"(")
    return X.lay(toks, r, style)


def one(i):
    r, ds = make(i)
    variant = "asan" if r.random() < 0.6 else "rel"
    how = r.choice(["load", "read", "pipe", "prompt", "expr"])
    style = r.choice(["flat", "lines", "mixed", "mixed"])
    end = r.choice([b"\n", b"\n", b"", b" ", b"# end", b"\n# end\n"])
    want = [M.show(d) for d in ds]
    feed = b""
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        if how == "load":
            body = wrap(ds, r, style, "printl") + end
            open(p, "wb").write(LOAD + body)
            args = [p]
        elif how in ("read", "pipe"):
            body = wrap(ds, r, style, "bare") + end
            if how == "read":
                open(os.path.join(d, "data.txt"), "wb").write(body)
            else:
                feed = body
            open(p, "wb").write(LOAD + b"(in %s %s)\n" % (
                b'"data.txt"' if how == "read" else b"NIL", b"(printl (read))" * (len(ds) + 1)))
            args = [p]
            want = want + [b"NIL"]
        elif how == "prompt":
            body = b"(load 'std 'io)" + READY + wrap(ds, r, style, "value") + end
            feed = body
            want = [b"ready"] + want
            args = []
        else:
            body = b"(load 'std 'io) " + wrap(ds, r, style, "printl") + end
            if len(body) > 100000:
                body = body[:0]
                want = []
            args = ["-e", body]
        res = H.run(DEST[variant], args, cwd=d, stdin=(feed, r) if feed else b"", timeout=60)
    if how == "prompt":
        got = []
        for line in res.out.split(b"\n"):
            while line.startswith(b": "):
                line = line[2:]
            if line.startswith(b"> "):
                got.append(line[2:])
            elif line.strip():
                got.append(line)
        got = got[1:]       # what load returned
    else:
        got = res.out.split(b"\n")[:-1]
    return i, variant, how, body, want, got, res


for i, variant, how, body, want, got, res in H.pmap(one, range(chk.n(3000, 60000))):
    if not want:
        continue
    chk.saw(body)
    chk.count("by:" + how)
    chk.count("bytes_read", len(body))
    chk.count("data_read", len(want))
    if i in (5, 6, 7):
        chk.sample(body[:600])
    m = res.monitor()
    if m or res.timeout or got != want:
        k = 0
        while k < min(len(got), len(want)) and got[k] == want[k]:
            k += 1
        chk.violation("%s: %s" % (how, m or ("hang" if res.timeout else "the data read is not the data written")),
                      "variant %s, datum %d\n-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
                          variant, k, (want[k] if k < len(want) else b"<end>")[:3000].decode("latin-1"),
                          (got[k] if k < len(got) else b"<end>")[:3000].decode("latin-1"),
                          res.err[-2000:].decode("latin-1")), body)
    if chk.too_many():
        break
chk.finish(minimum=chk.n(1000, 10000))
