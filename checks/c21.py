#!/usr/bin/env python3
"""C21: conversion to continuation-passing style preserves meaning."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

chk = H.Check("C21")
chk.rule = ("random functions made of nested calls, two-armed ifs in any position and one-armed forms in tail position, with "
            "self recursion and functional parameters, are run as written and, converted by the real >&, with "
            "every operator replaced by its continuation-passing version; results and the traced sequence of calls and of "
            "the continuation are compared with a direct evaluation in Python; the types and reference counts inferred "
            "for parameters are compared with their uses in the source; distinct functions counted")

MOD = 997
OPS = {}            # name -> (constant, coefficients)
for n in range(4):
    for j in range(3):
        OPS["op%d%s" % (n, "abc"[j])] = (7 + 13 * j + n, [3 + 2 * i + 5 * j for i in range(n)])
PRED = {"pr1a": (1, 2), "pr1b": (1, 3), "pr2a": (2, 2), "pr2b": (2, 5)}      # name -> (arity, modulus)


def num_expr(op):
    c, ks = OPS[op]
    e = str(c)
    for i, k in enumerate(ks):
        e = "(+ %s (* %d z%d))" % (e, k, i)
    return "(%% %s %d)" % (e, MOD)


def pred_expr(op):
    n, m = PRED[op]
    e = "z0" if n == 1 else "(+ z0 z1)"
    return "(= 0 (%% %s %d))" % (e, m)


def op_defs(cps):
    out = []
    for op in list(OPS) + list(PRED):
        n = len(OPS[op][1]) if op in OPS else PRED[op][0]
        zs = " ".join("z%d" % i for i in range(n))
        v = num_expr(op) if op in OPS else pred_expr(op)
        tr = '(prinl "%s" %s)' % (op, " ".join('" " z%d' % i for i in range(n)))
        if cps:
            out.append("(def %s (%s zk) (prog %s (zk %s)))" % (op, zs, tr, v))
        else:
            out.append("(def %s (%s) (prog %s %s))" % (op, zs, tr, v))
    return out


class Fun:
    pass


class Abort(Exception):
    pass


def gen_num(r, f, d, tail):
    x = r.random()
    if d <= 0 or x < (0.1 if tail else 0.25):
        y = r.random()
        return ("v", r.choice(f.nums)) if y < 0.75 and f.nums else ("n", r.choice([0, 1, 2, 5, 42, 996, 123456789]))
    if x < (0.45 if tail else 0.4):
        if tail and r.random() < 0.2:
            return ("one", r.choice(["if", "when", "unless"]), gen_bool(r, f, d - 1), gen_num(r, f, d - 1, True))
        return ("if", gen_bool(r, f, d - 1), gen_num(r, f, d - 1, tail), gen_num(r, f, d - 1, tail))
    if f.rec and x > 0.9 and f.budget > 0:
        f.budget -= 1
        return ("c", f.name, [("c", "op1dec", [("v", f.nums[0])])] +
                [gen_num(r, f, d - 2, False) for _ in f.nums[1:]] +
                [gen_bool(r, f, 0) for _ in f.bools] + [("v", x) for x in f.funs])
    if f.funs and x > 0.85:
        return ("c", r.choice(f.funs), [gen_num(r, f, d - 1, False)])
    op = r.choice(list(OPS))
    return ("c", op, [gen_num(r, f, d - 1, False) for _ in OPS[op][1]])


def gen_bool(r, f, d):
    x = r.random()
    if d <= 0 or x < 0.2:
        return ("v", r.choice(f.bools)) if f.bools and r.random() < 0.8 else ("t",)
    if x < 0.35:
        return ("if", gen_bool(r, f, d - 1), gen_bool(r, f, d - 1), gen_bool(r, f, d - 1))
    op = r.choice(list(PRED))
    return ("c", op, [gen_num(r, f, d - 1, False) for _ in range(PRED[op][0])])


def text(e):
    k = e[0]
    if k == "v":
        return e[1]
    if k == "n":
        return str(e[1])
    if k == "t":
        return "T"
    if k == "if":
        return "(if %s %s %s)" % (text(e[1]), text(e[2]), text(e[3]))
    if k == "one":
        return "(%s %s %s)" % (e[1], text(e[2]), text(e[3]))
    return "(%s)" % " ".join([e[1]] + [text(a) for a in e[2]])


def call(op, args, f, tr):
    tr.append(" ".join([op] + [str(a) for a in args]))
    if len(tr) > 300:
        raise OverflowError
    if op == "op1dec":
        return args[0] - 1
    if op in OPS:
        c, ks = OPS[op]
        return (c + sum(k * a for k, a in zip(ks, args))) % MOD
    return sum(args) % PRED[op][1] == 0


def ev(e, env, f, tr):
    k = e[0]
    if k == "v":
        return env[e[1]]
    if k == "n":
        return e[1]
    if k == "t":
        return True
    if k == "if":
        return ev(e[2] if ev(e[1], env, f, tr) else e[3], env, f, tr)
    if k == "one":
        c = ev(e[2], env, f, tr)
        if bool(c) != (e[1] == "unless"):
            return ev(e[3], env, f, tr)
        raise Abort             # the value is NIL; no continuation is called
    args = [ev(a, env, f, tr) for a in e[2]]
    if e[1] == f.name:
        tr.append(None)
        if len(tr) > 300:
            raise OverflowError
        return ev(f.body, dict(zip(f.params, args)), f, tr)
    return call(env.get(e[1], e[1]), args, f, tr)


def has_one(e):
    return e[0] == "one" or any(has_one(x) for x in e[1:] if isinstance(x, tuple)) or \
        (e[0] == "c" and any(has_one(x) for x in e[2]))


def make(i, j):
    r = chk.rng(i, j)
    while True:
        f = Fun()
        f.name = "fn%d" % j
        f.rec = r.random() < 0.3
        f.budget = 3
        f.nums = ["a", "b", "c", "d"][:r.choice([0, 1, 1, 2, 2, 3])]
        f.bools = ["u", "v"][:r.choice([0, 0, 1, 2])]
        f.funs = ["g"] if r.random() < 0.25 else []
        if f.rec and not f.nums:
            f.nums = ["a"]
        f.params = f.nums + f.bools + f.funs
        f.body = gen_num(r, f, r.choice([1, 2, 3, 3, 4, 5]), True)
        if f.rec:
            if has_one(f.body):
                continue
            f.body = ("if", ("c", "pr1z", [("v", "a")]), ("v", "a"), f.body)
        f.runs = []
        try:
            for _ in range(3):
                args = [r.choice([0, 1, 2, 3, 4]) if f.rec and p == "a" else r.choice([0, 1, 2, 3, 10, 500, 996])
                        for p in f.nums]
                args += [r.random() < 0.5 for _ in f.bools]
                args += [r.choice(["op1a", "op1b", "op1c"]) for _ in f.funs]
                tr = []
                try:
                    v = ev(f.body, dict(zip(f.params, args)), f, tr)
                except Abort:
                    v = None
                f.runs.append((args, [t for t in tr if t is not None], v))
        except OverflowError:
            continue
        if len(text(f.body)) < 1500:
            return f


OPS["op1dec"] = (0, [1])
PRED["pr1z"] = (1, 1)
_n, _p = num_expr, pred_expr
num_expr = lambda op: "(- z0 1)" if op == "op1dec" else _n(op)                # noqa: E731
pred_expr = lambda op: "(< z0 1)" if op == "pr1z" else _p(op)                 # noqa: E731
_call = call


def call(op, args, f, tr):          # noqa: F811
    if op == "pr1z":
        tr.append("pr1z %d" % args[0])
        return args[0] < 1
    return _call(op, args, f, tr)


HEAD = ['(load "@lib/cps.l" \'std \'logic \'math \'io)']


def show(v):
    return "T" if v is True else "NIL" if v is None or v is False else str(v)


def script(fs):
    """The script, and the blocks of lines it should print: (function, stage, expected)."""
    out = list(HEAD)
    out += [d for d in op_defs(False)]
    exp = []

    def block(f, stage, expr, want):
        out.append('(prog (prinl "@%d") (printl %s))' % (len(exp), expr))
        exp.append((f, stage, want))

    for f in fs:
        out.append("(def %s (%s) %s)" % (f.name, " ".join(f.params), text(f.body)))
    order = list(fs)
    for f in order:
        args, tr, v = f.runs[0]
        block(f, "as written", "(%s %s)" % (f.name, " ".join(show(a) for a in args)), tr + [show(v)])
    for f in order:
        out.append("(setq kc%s (>& '%s))" % (f.name, f.name))
    for f in order:
        for args, tr, v in f.runs:
            block(f, "as written, after >&", "(%s %s)" % (f.name, " ".join(show(a) for a in args)), tr + [show(v)])
    out += op_defs(True)
    for f in order:
        if f.rec:
            out.append("(setq %s kc%s)" % (f.name, f.name))
    for f in order:
        for q, (args, tr, v) in enumerate(f.runs):
            head = "kc" + f.name if q or f.rec else "(>& '%s)" % f.name
            a = " ".join(show(x) for x in args)
            want = tr + (["NIL"] if v is None else ["k " + show(v), show(v + 1000)])
            block(f, "converted", "(%s %s (\\ (zv) (prog (prinl \"k \" zv) (+ zv 1000))))" % (head, a), want)
    return out, exp


def check_run(i):
    fs = [make(i, j) for j in range(12)]
    src, exp = script(fs)
    bad = []
    for v in ("asan", "rel"):
        with H.Scratch() as d:
            p = os.path.join(d, "m.l")
            open(p, "w").write("\n".join(src) + "\n1\n")
            r = H.run(DEST[v], [p], timeout=120)
        m = r.monitor()
        if m:
            bad.append(("monitor while converting", "%s\n%s" % (m, "\n".join(src)), None))
            continue
        if r.timeout:
            bad.append(("hang", "\n".join(src), None))
            continue
        if r.rc == 0 and v == "asan" and r.live():
            bad.append(("cells left after conversion", "%r live\n%s" % (r.live(), "\n".join(src)), None))
        got = {}
        for part in r.out.decode("latin-1").split("@")[1:]:
            ls = part.split("\n")
            got[int(ls[0])] = [x.strip() for x in ls[1:] if x.strip()]
        for k, (f, stage, want) in enumerate(exp):
            if got.get(k) != want:
                bad.append(("%s, %s" % (stage, v), "(def %s (%s) %s)\n%s block %d\nexpected %s\ngot      %s" %
                            (f.name, " ".join(f.params), text(f.body), stage, k, want, got.get(k)), "\n".join(src)))
                break
    return fs, len(exp), bad


# ---- inference and reference counts ---------------------------------------

NUMB = ["+", "-", "*", "<", "<=", ">", ">=", "and", "or"]
LST2 = ["cons", "conc"]


class Inf:
    pass


def gi(r, f, want, d, tail):
    """An expression producing WANT (NUMBER or ATOM); misuse puts in the wrong type."""
    if tail and d > 0 and r.random() < 0.35:
        return ("if", gi(r, f, "NUMBER", d - 1, False), gi(r, f, want, d - 1, True), gi(r, f, want, d - 1, True))
    if not tail and (d <= 0 or r.random() < 0.35):
        if f.misuse and r.random() < 0.15:
            other = f.typed["ATOM" if want == "NUMBER" else "NUMBER"]
            if other:
                return ("v", r.choice(other))
        ps = f.typed[want]
        if ps and (r.random() < 0.85 or want == "ATOM"):
            return ("v", r.choice(ps))
        if want == "NUMBER":
            return ("n", r.randrange(100))
        return ("c", "cdr", [("v", f.params[0])]) if not ps else ("v", r.choice(ps))
    hs = [h for h in f.helpers if h.res == want]
    if hs and r.random() < 0.25:
        h = r.choice(hs)
        return ("c", h.name, [gi(r, f, h.want[p], d - 1, False) for p in h.params])
    if want == "NUMBER":
        x = r.random()
        if x < 0.2:
            return ("c", r.choice(["lst?", "nil?"]), [gi(r, f, "ATOM", d - 1, False)])
        if x < 0.3:
            return ("c", "not", [gi(r, f, "NUMBER", d - 1, False)])
        return ("c", r.choice(NUMB), [gi(r, f, "NUMBER", d - 1, False) for _ in range(2)])
    if r.random() < 0.5:
        return ("c", r.choice(["car", "cdr"]), [gi(r, f, "ATOM", d - 1, False)])
    return ("c", r.choice(LST2), [gi(r, f, "ATOM", d - 1, False) for _ in range(2)])


def sig(op, helpers):
    if op in NUMB:
        return ["NUMBER", "NUMBER"], "NUMBER"
    if op == "not":
        return ["NUMBER"], "NUMBER"
    if op in ("lst?", "nil?"):
        return ["ATOM"], "NUMBER"
    if op in ("car", "cdr"):
        return ["ATOM"], "ATOM"
    if op in LST2:
        return ["ATOM", "ATOM"], "ATOM"
    h = helpers[op]
    return [h.types[p] for p in h.params], h.res


def uses(e, f, out, errs):
    """Types with which parameters are used; returns the type of the value of a call."""
    k = e[0]
    if k == "if":
        t = use1(e[1], "NUMBER", f, out, errs)
        uses(e[2], f, out, errs)
        uses(e[3], f, out, errs)
        return t
    if k == "c":
        args, res = sig(e[1], f.hmap)
        for a, t in zip(e[2], args):
            use1(a, t, f, out, errs)
        return res
    return None


def use1(a, t, f, out, errs):
    if a[0] == "v":
        out.setdefault(a[1], set()).add(t)
    elif a[0] == "c":
        r = uses(a, f, out, errs)
        if r != t:
            errs.append((a, t, r))


def counts(e, out):
    if e[0] == "v":
        out[e[1]] = out.get(e[1], 0) + 1
    elif e[0] == "if":
        for x in e[1:]:
            counts(x, out)
    elif e[0] == "c":
        for x in e[2]:
            counts(x, out)


def inf_fun(r, name, helpers):
    while True:
        f = Inf()
        f.name = name
        f.helpers = helpers
        f.hmap = {h.name: h for h in helpers}
        n = r.choice([1, 2, 2, 3, 3])
        f.params = ["a", "b", "c"][:n]
        f.want = {p: r.choice(["NUMBER", "ATOM"]) for p in f.params}
        f.typed = {t: [p for p in f.params if f.want[p] == t] for t in ("NUMBER", "ATOM")}
        f.misuse = name[0] != "h" and r.random() < 0.4
        f.res = r.choice(["NUMBER", "ATOM"])
        f.body = gi(r, f, f.res, r.choice([1, 2, 2, 3]), True)
        if f.body[0] == "v":
            continue
        f.out, f.errs = {}, []
        uses(f.body, f, f.out, f.errs)
        f.types = {p: (list(s)[0] if len(s) == 1 else "ERROR") for p, s in f.out.items()}
        f.count = {}
        counts(f.body, f.count)
        if name[0] == "h":
            if len(f.types) != n or f.errs or "ERROR" in f.types.values() or f.types != f.want:
                continue
        if len(text(f.body)) < 600:
            return f


def check_inf(i):
    r = chk.rng("inf", i)
    hs = []
    for j in range(3):
        hs.append(inf_fun(r, "h%d" % j, list(hs)))
    fs = [inf_fun(r, "fn%d" % j, hs) for j in range(15)]
    src = list(HEAD)
    for f in hs + fs:
        src.append("(def %s (%s) %s)" % (f.name, " ".join(f.params), text(f.body)))
    for f in fs + hs:
        src.append('(prog (prinl "@%s") (printl (cps:infer \'%s (>& \'%s))) (printl (cps:refcount (>& \'%s))))' %
                   (f.name, f.name, f.name, f.name))
    bad = []
    with H.Scratch() as d:
        p = os.path.join(d, "m.l")
        open(p, "w").write("\n".join(src) + "\n1\n")
        res = H.run(DEST["asan"], [p], timeout=120)
    m = res.monitor()
    if m or res.timeout:
        return fs, [("monitor while inferring", "%s\n%s" % (m, "\n".join(src)), None)]
    got = {}
    for part in res.out.decode("latin-1").split("@")[1:]:
        ls = part.split("\n")
        got[ls[0]] = [dict(re.findall(r"\(([^()\s]+) \. ([^()\s]+)\)", x)) for x in ls[1:3]]
    for f in fs + hs:
        g = got.get(f.name)
        d = "(def %s (%s) %s)\n" % (f.name, " ".join(f.params), text(f.body))
        if g is None or len(g) < 2:
            bad.append(("no inference result", d + repr(res.out[-500:]), "\n".join(src)))
            continue
        ty = {k: v for k, v in g[0].items() if k in f.params}
        kv = "_%d" % len(f.params)
        if ty != f.types:
            bad.append(("types of the parameters", d + "expected %s\ngot      %s" % (f.types, g[0]), "\n".join(src)))
        elif g[0].get(kv) != f.res:
            bad.append(("type of the result", d + "expected %s\ngot      %s" % (f.res, g[0]), "\n".join(src)))
        elif bool(f.errs) != any(v == "ERROR" for k, v in g[0].items() if k not in f.params and k != kv):
            bad.append(("types of intermediate values", d + "mismatches %s\ngot      %s" % (f.errs, g[0]), "\n".join(src)))
        rc = {k: int(v) for k, v in g[1].items() if k in f.params}
        if rc != f.count:
            bad.append(("reference counts of the parameters", d + "expected %s\ngot      %s" % (f.count, g[1]), "\n".join(src)))
    return fs, bad


def nested_if(e, tail=True):
    if e[0] == "if":
        return (not tail) or nested_if(e[1], False) or nested_if(e[2], tail) or nested_if(e[3], tail)
    if e[0] == "one":
        return nested_if(e[2], False) or nested_if(e[3], tail)
    if e[0] == "c":
        return any(nested_if(x, False) for x in e[2])
    return False


DEST = {v: chk.build(v) for v in ("asan", "rel")}
for fs, n, bad in H.pmap(check_run, range(chk.n(250, 6000))):
    for f in fs:
        t = text(f.body)
        chk.saw("%s|%s" % (f.params, t), trivial="(" not in t)
        chk.count("functions:recursive", f.rec)
        chk.count("functions:functional parameter", bool(f.funs))
        chk.count("functions:if as an argument", nested_if(f.body))
        chk.count("functions:one-armed", has_one(f.body))
        chk.count("calls_traced", sum(len(x[1]) for x in f.runs))
        chk.sample("(%s) %s -> %s" % (" ".join(f.params), t, f.runs))
    chk.count("runs_compared", 2 * n)
    for b in bad[:2]:
        chk.violation(*b)
for fs, bad in H.pmap(check_inf, range(chk.n(200, 5000))):
    for f in fs:
        chk.saw("inf|%s|%s" % (f.params, text(f.body)))
        chk.count("functions_inferred")
        chk.count("functions_inferred:with mismatch", bool(f.errs) or "ERROR" in f.types.values())
    for b in bad[:2]:
        chk.violation(*b)
chk.finish(minimum=500)
