#!/usr/bin/env python3
"""C08: global bindings behave as a map, whatever the history and the names."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import diff as D
import harness as H
import model as M

chk = H.Check("C08")
chk.rule = ("histories of setq, def, <- (quoted or made by sym), module loads over the same names, shadowing by let and "
            "lambdas, and lookups by fresh occurrences, by occurrences already evaluated inside older functions and by "
            "eval of sym; names are similar (same prefixes, one byte apart, 16 characters) and up to hundreds; each "
            "result is compared with the model; distinct histories counted")
BUILTIN = set(M.Interp(0).globals)
it = M.Interp(0)
it.library()
RESERVED = set(it.globals) | X.BOUND | {"T", "NIL", "_", ".", "-r-", "quit", "while", "io", "std", "EOF", "ENV", "ARGV", "CONFIG",
                              "e", "x", "acc", "lst", "fun", "n", "k", "v"}
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def names(r, n):
    """N names, many of them alike."""
    out = []
    seen = set()
    base = None
    while len(out) < n:
        x = r.random()
        if base is None or x < 0.08:
            base = X.symbol(r)
            while len(base) < r.choice([1, 4, 8, 12, 16]):
                base += r.choice(LETTERS)
            s = base
        elif x < 0.45:          # one byte changed
            k = r.randrange(len(base))
            s = base[:k] + r.choice(LETTERS + "-+*/:!?") + base[k + 1:]
        elif x < 0.6:           # one byte more or less
            s = base[:-1] if r.random() < 0.5 else base + r.choice(LETTERS + "0123456789")
        elif x < 0.75:          # upper and lower case
            k = r.randrange(len(base))
            s = base[:k] + base[k].swapcase() + base[k + 1:]
        elif x < 0.85:
            s = "%s%d" % (base[:11], r.randrange(10000))
        elif x < 0.92:
            s = r.choice(out) if out else base
            s = s[::-1]
        else:
            s = X.symbol(r)
        s = s[:16]
        if not s or s in seen or s in RESERVED or s[0] not in LETTERS + "!@$%&*+=:<>?|" or \
                any(c in ".\\,;[]{}/" for c in s) or s.startswith(("get:", "set:", "sh:")):
            continue
        seen.add(s)
        out.append(s)
    return out


def val(r):
    x = r.random()
    if x < 0.5:
        return str(r.randrange(-99, 1000))
    if x < 0.6:
        return '"%s"' % "".join(r.choice("abc") for _ in range(r.randrange(1, 4)))
    if x < 0.7:
        return "'(%d s%d)" % (r.randrange(9), r.randrange(9))
    if x < 0.75:
        return "'s%d" % r.randrange(20)
    if x < 0.8:
        return "T"
    return "(+ %d %d)" % (r.randrange(100), r.randrange(100))


def make(i):
    r = chk.rng(i)
    n = r.choice([3, 6, 15, 40, 120, 400])
    ns = names(r, n)
    hot = ns[:r.choice([2, 4, 8])]
    getters, setters = {}, {}
    funs = set()
    out = []
    mods = [("math", "%"), ("math", "/"), ("math", "<="), ("logic", "and"), ("logic", "not")]
    for step in range(r.choice([20, 60, 150]) + n):
        a = r.choice(hot) if r.random() < 0.5 else r.choice(ns)
        if step < n and r.random() < 0.7:
            a = ns[step]
        x = r.random()
        if x < 0.2:
            out.append("(setq %s %s)" % (a, val(r)))
            funs.discard(a)
        elif x < 0.27:
            out.append("(def %s (v) (list '%s v %d))" % (a, r.choice(ns), r.randrange(100)))
            funs.add(a)
        elif x < 0.36:
            e = "(<- '%s %s)" % (a, r.choice([val(r), val(r), "NIL"]))
            out.append("(prog %s 1)" % e if a in funs else e)
            funs.discard(a)
        elif x < 0.41:
            e = '(<- (sym "%s") %s)' % (a, val(r))
            out.append("(prog %s 1)" % e if a in funs else e)
            funs.discard(a)
        elif x < 0.47:
            k = "get:%d" % len(getters)
            b = r.choice(ns)
            getters[k] = (a, b)
            out.append("(def %s () (list %s %s))" % (k, a, b))
        elif x < 0.5:
            k = "set:%d" % len(setters)
            setters[k] = a
            out.append(r.choice(["(def %s (v) (<- '%s v))", "(def %s (v) (setq %s v))"]) % (k, a))
        elif x < 0.62 and getters:
            k = r.choice(list(getters))
            if not funs & set(getters[k]):
                out.append("(%s)" % k)
        elif x < 0.68 and getters:
            k = r.choice(list(getters))
            b = r.choice(getters[k])
            if not funs & set(getters[k]):
                form = r.choice(["(let ((%s . %s)) (%s))", "((\\ (%s) (%s)) %s)"])
                out.append(form % ((b, val(r), k) if form[1] == "l" else (b, k, val(r))))
        elif x < 0.76 and setters:
            k = r.choice(list(setters))
            v = val(r)
            out.append("(prog (%s %s) 1)" % (k, v) if setters[k] in funs else "(%s %s)" % (k, v))
            funs.discard(setters[k])
        elif x < 0.8 and setters:
            k = r.choice(list(setters))
            b = setters[k]
            if b not in funs:
                out.append("(let ((%s . %s)) (%s %s) %s)" % (b, val(r), k, val(r), b))
        elif x < 0.86:
            if a in funs:
                out.append("(%s %s)" % (a, val(r)))
            else:
                out.append('(eval (sym "%s"))' % a)
        elif x < 0.9:
            m, s = r.choice(mods)
            y = r.random()
            if y < 0.4:
                out.append("(setq %s %d)" % (s, r.randrange(100)))
            elif y < 0.7:
                out.append("(load '(%s %s))" % (m, s))
            else:
                out.append("(num? %s)" % s)
        elif a in funs:
            out.append("(%s %s)" % (a, val(r)))
        else:
            b = r.choice([b for b in ns if b not in funs] or ["T"])
            out.append(r.choice([a, "(list %s %s)" % (a, b)]))
    # the whole map at the end
    for a in ns:
        out.append("(%s 1)" % a if a in funs else a)
    return out


HEAD = "(load 'std 'logic 'math 'io)\n"
cases = D.generate(chk, make, chk.n(1500, 20000), lib=False)
for c in cases[:2]:
    chk.sample("\n".join(c[1][:40]))
for c in cases:
    chk.count("operations", len(c[1]))
    chk.count("values_observed", c[2].count(b"=> "))
D.run_batches(chk, cases, ["asan", "rel"], per=1, header=HEAD, leaks=True)
chk.finish(minimum=chk.n(500, 5000))
