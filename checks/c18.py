#!/usr/bin/env python3
"""C18: malformed text is reported and does not derail the interpreter."""
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import harness as H
import interact as I
import model as M
import reader as R

chk = H.Check("C18")
chk.rule = ("texts mixing well-formed expressions with malformed ones (stray parentheses, bytes that start no token, bad "
            "characters and quotes, misplaced dots, unterminated lists and strings), then mutated or cut at a random "
            "byte, given to the prompt (at once, in pieces, and line by line waiting for the answers), to a script, "
            "load, -e and in/read; an independent reader says which expressions the text holds and where it is wrong, "
            "the model what they give; the monitors watch for crashes, hangs and leaks; distinct texts counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
LOAD = b"(load 'std 'io 'math)\n"
LOW = [c for c in range(1, 32) if c not in (9, 10, 11, 12, 13)]


# ---------------------------------------------------------------- texts

def good(r, form, k):
    """A well-formed expression whose evaluation can be seen."""
    x = r.random()
    if form == "bare":
        toks = []
        X.tokens(X.datum(r, r.choice([0, 1, 2, 3])), r, toks)
        return X.lay(toks, r, r.choice(["flat", "flat", "lines", "mixed"]))
    if x < 0.5:
        toks = [b"(", b"car", b"'("]
        X.tokens(X.datum(r, r.choice([0, 1, 2])), r, toks)
        toks += [b")", b")"]
    elif x < 0.8:
        toks = [b"(", b"setq", b"cnt", b"(", b"+", b"cnt", b"1", b")", b")"]
    else:
        toks = [b"(", b"+", b"%d" % r.randrange(100), b"(", b"*", b"%d" % r.randrange(100), b"2", b")", b")"]
    if form == "script":
        toks = [b"(", b"printl"] + toks + [b")"]
    return X.lay(toks, r, r.choice(["flat", "flat", "lines", "mixed"]))


def junk(r, form):
    """A malformed piece of text."""
    low = bytes([r.choice(LOW)])
    high = bytes([r.randrange(127, 256)])
    g = good(r, form, 0)
    inner = r.choice([low, high, b"^" + low, b"^" + high, b"^\\q", b"'^a", b"'\"s\"", b"' 5", b"''a", b"'", b"')",
                      b". )", b". .", b". 1 2)", b". 1 . 2)", b". 1 (a))", b". 1 '(a b))", b". 1 \"s\")", b". 1 ^a)",
                      b". 1 NIL)", b". 1 T)", b". 1 _)", b". 1 'a)", b". '(1 2) '3)", b". 1 sym)", b". \"ab\" \"cd\")"])
    x = r.random()
    if x < 0.2:
        return b")" * r.choice([1, 1, 2, 5])
    if x < 0.35:
        return r.choice([low, high, b"^" + low, b"^" + high, b"^\\q", b"'^a", b"'\"s\"", b"' 5", b"''a", b"'", b"')"])
    if x < 0.45:
        return r.choice([b". ", b". 5", b"5 .", b"(. 5)", b"( . )", b"(.)", b"(a . )"])
    if x < 0.6:
        return g + b")"
    n = r.choice([1, 1, 2, 4, 30])
    return b"(car '(" * n + b"1 " + inner + r.choice([b"", b" 2", b"))" * n, b" " + g])


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4])):
        if not b:
            break
        i = r.randrange(len(b))
        x = r.random()
        if x < 0.35:
            b[i:i] = r.choice([b"(", b")", b'"', b"'", b"^", b".", b" . ", b"\\", b"#", b"\n", b"-", b"^\\", b"1", b"a",
                               b"\x80", b"\x01", b"\x7f", b"\xff", b"NIL", b"\r", b"\x1b[A", b"()", b"'(", b"a" * 20])
        elif x < 0.6:
            del b[i:i + r.choice([1, 1, 2, 10])]
        elif x < 0.75:
            b[i:i] = b[i:i + r.choice([1, 3, 10])]
        elif x < 0.9:
            b[i] = r.randrange(1, 256)
        else:
            j = r.randrange(len(b))
            b[i], b[j] = b[j], b[i]
    return bytes(b)


def garbage(r):
    n = r.choice([1, 3, 10, 60, 300])
    pool = r.choice([list(range(1, 256)), list(range(32, 127)) + [10], list(b"()'\"^. \n\\#aNT_1-;"),
                     list(b"() .'\n a1"), list(b"()a1 \n\"")])
    return bytes(r.choice(pool) for _ in range(n))


def make(r, form):
    out = []
    for k in range(r.choice([2, 4, 8, 15])):
        x = r.random()
        if x < 0.62:
            out.append(good(r, form, k))
        elif x < 0.97 or form != "bare":
            out.append(junk(r, form))
        else:
            out.append(garbage(r))
        out.append(r.choice([b"\n", b"\n", b"\n", b" ", b"\n\n", b" # comment ) \" ' \n"]))
    b = b"".join(out)
    if form == "bare" and r.random() < 0.2:
        b = garbage(r) + b
    if r.random() < (0.5 if form == "bare" else 0.15):
        b = mutate(r, b)
    if r.random() < 0.3:
        b = b[:r.randrange(len(b) + 1)]
    elif r.random() < 0.7:
        b += b"\n"
    return b.translate(None, b"\0`~")


# ---------------------------------------------------------------- expectations

NAMES = {"car", "setq", "cnt", "+", "*", "printl", "quote", "list"}


def shape(x):
    """The forms this check writes: (fn args...) with fn of the vocabulary; anything else is not judged."""
    if not isinstance(x, M.Pair):
        return not isinstance(x, M.Sym) or x.name == "cnt" or x.name not in X.BOUND
    if x.car is M.QUOTE:
        return True
    if not isinstance(x.car, M.Sym) or x.car.name not in NAMES or x.car.name == "cnt":
        return False
    n = 0
    y = x.cdr
    while isinstance(y, M.Pair):
        if not (x.car.name == "setq" and n == 0) and not shape(y.car):
            return False
        n += 1
        y = y.cdr
    if y is not M.NIL:
        return False
    if x.car.name == "setq":
        return n == 2 and isinstance(x.cdr.car, M.Sym) and x.cdr.car.name == "cnt" and \
            isinstance(x.cdr.cdr.car, M.Pair) and x.cdr.cdr.car.car is M.sym("+")
    if x.car.name in ("+", "*"):
        return n == 2 and numeric(x.cdr.car) and numeric(x.cdr.cdr.car)
    if x.car.name == "car":
        return n == 1 and isinstance(x.cdr.car, M.Pair) and x.cdr.car.car is M.QUOTE
    return n == 1


def numeric(x):
    if isinstance(x, int):
        return abs(x) < 10 ** 9
    if x is M.sym("cnt"):
        return True
    return isinstance(x, M.Pair) and x.car in (M.sym("+"), M.sym("*")) and shape(x)


def evaluate(evs, form):
    """-> (lines, errors), or None when an expression is not one of those this check can judge."""
    lines, errors = [], 0
    it = M.Interp(100000)
    it.top(M.read_all("(setq cnt 0)")[0])
    for kind, x, _ in evs:
        if kind != "value":
            errors += kind == "error"
            continue
        if form == "bare":
            lines.append(M.show(x))
            continue
        if not shape(x):
            return None
        try:
            v = it.top(x)
        except (M.Unsupported, RecursionError):
            return None
        if form == "prompt":
            if it.out:
                return None         # what it prints and its value are not told apart
            lines.append(M.show(v))
    if form == "script":
        lines = b"".join(it.out).split(b"\n")[:-1]
    return lines, errors


# ---------------------------------------------------------------- runs

def transcript(out):
    """The results and the number of errors of a session at the prompt."""
    n = out.count(b"^ parse error\n")
    got = []
    for line in out.replace(b"^ parse error\n", b"").split(b"\n"):
        while line.startswith(b": "):
            line = line[2:]
        if line.startswith(b"> "):
            got.append(line[2:])
        elif line.strip():
            got.append(b"?" + line)
    return got, n


def one(i):
    r = chk.rng(i)
    how = r.choice(["prompt", "pieces", "lines", "script", "load", "expr", "expr", "read", "read", "stdin"])
    form = {"prompt": "prompt", "pieces": "prompt", "lines": "prompt", "read": "bare", "stdin": "bare"}.get(how, "script")
    body = make(r, form)
    if how == "lines" and not body.endswith(b"\n"):
        body += b"\n"
    evs = R.read(body, lines=how != "expr")
    exp = evaluate(evs, form)
    if exp is None or not body or (how == "expr" and len(body) > 60000):
        return None
    want, errors = exp
    variant = "asan" if r.random() < 0.6 else "rel"
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        feed = b""
        head = LOAD + b"(setq cnt 0)\n"
        if how == "lines":
            return (i, variant, how, body) + by_line(DEST[variant], d, head, body, want, errors)
        if form == "prompt":
            feed = head + body
            args = ["-d"]
        elif how == "script":
            open(p, "wb").write(head + body)
            args = ["-d", p]
        elif how == "load":
            open(os.path.join(d, "data.l"), "wb").write(body)
            open(p, "wb").write(head + b'(load "data.l")\n(prinl "END")\n')
            args = ["-d", p]
            want = want + [b"END"]
        elif how == "expr":
            args = ["-d", "-e", head + body]
        else:
            if how == "read":
                open(os.path.join(d, "data.txt"), "wb").write(body)
            else:
                feed = body
            open(p, "wb").write(LOAD + b"(in %s %s)\n(prinl \"END\")\n" % (
                b'"data.txt"' if how == "read" else b"NIL", b"(printl (read))" * (len(want) + 2)))
            args = ["-d", p]
            want = want + [b"NIL", b"NIL", b"END"]
        res = H.run(DEST[variant], args, cwd=d, timeout=60,
                    stdin=(feed, r) if feed and how in ("pieces", "stdin") else feed)
    if form == "prompt":
        got, n = transcript(res.out)
        got = got[2:]
        if n != errors and body.endswith(b"\n"):
            return i, variant, how, body, want, got, res, "%d parse errors reported, not %d" % (n, errors)
    else:
        got = res.out.split(b"\n")[:-1]
    return i, variant, how, body, want, got, res, None


def by_line(dest, d, head, body, want, errors):
    """A session where the next line is typed after the answers to the previous one."""
    p = I.Proc(dest, ["-d"], d, limit=40)
    note = None
    try:
        p.send(head)
        lines = body.split(b"\n")[:-1]
        nv = 2
        for k in range(len(lines)):
            p.send(lines[k] + b"\n")
            evs = R.read(b"\n".join(lines[:k + 1]) + b"\n")
            if not evs or evs[-1][0] != "open":      # else they come when the expression is complete
                nv = 2 + sum(e[0] == "value" for e in evs)
            ne = sum(e[0] == "error" for e in evs)
            t0 = time.time()
            while len(transcript(p.all)[0]) < nv or p.all.count(b"^ parse error\n") < ne:
                p.more(t0 + p.limit)
        res = p.end()
        if p.all.count(b"^ parse error\n") != errors:
            note = "%d parse errors reported, not %d" % (p.all.count(b"^ parse error\n"), errors)
    except I.Gone as e:
        note = "line %d: %s" % (k, e)
        res = p.end(kill=True)
        if res.rc == -9 and res.timeout is False:
            res.rc = 0
    got, _ = transcript(p.all)
    return want, got[2:], res, note


skipped = 0
for c in H.pmap(one, range(chk.n(3600, 60000))):
    if c is None:
        skipped += 1
        continue
    i, variant, how, body, want, got, res, note = c
    chk.saw(body)
    chk.count("by:" + how)
    evs = R.read(body, lines=how != "expr")
    chk.count("errors_in_texts", sum(e[0] == "error" for e in evs))
    chk.count("expressions_in_texts", sum(e[0] == "value" for e in evs))
    if evs and not body.endswith(b"\n"):
        chk.count("cut_texts")
    if i in (5, 6, 7):
        chk.sample(body[:600])
    m = res.monitor()
    if not m and not note and not res.timeout and got == want and (res.rc == 254 or (res.stats and res.live())):
        note = "cells not released (rc=%s, live=%s)" % (res.rc, res.live())
    if m or note or res.timeout or got != want:
        k = 0
        while k < min(len(got), len(want)) and got[k] == want[k]:
            k += 1
        chk.violation("%s: %s" % (how, m or note or ("hang" if res.timeout else "not what the text holds")),
                      "variant %s, rc %s, result %d\n-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
                          variant, res.rc, k, (want[k] if k < len(want) else b"<end>")[:2000].decode("latin-1"),
                          (got[k] if k < len(got) else b"<end>")[:2000].decode("latin-1"),
                          res.err[-2000:].decode("latin-1")), body)
    if chk.too_many():
        break
chk.count("texts_not_judged", skipped)
chk.finish(minimum=chk.n(1000, 10000))
