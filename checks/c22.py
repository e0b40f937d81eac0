#!/usr/bin/env python3
"""C22: debug tracing observes and does not take part."""
import collections
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import gen
import harness as H
import workload as W

chk = H.Check("C22")
chk.rule = ("generated programs run without MNML_DEBUG, with no known category, with each category alone and with random "
            "sets of categories in random order; output, status and cell statistics compared, the trace lines counted "
            "by the place which prints them; non-trivial: distinct pairs of program and set of categories")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
CATS = ["BIND", "CHAN", "CLOS", "CONS", "EVAL", "MAKE", "MODL", "REFC", "SLAB", "SLOT", "TAIL"]
WIDTH = 100
HEAD = D.HEADER
LINE = re.compile(rb"^! +\d\d:\d\d:\d\d\.\d{6} \((.{16}), *(\d+)\) (\[[^\]]*\])")


def value(cats, r):
    """A value of MNML_DEBUG naming the categories, always of the same length: ENV is made of cells."""
    junk = [x for x in ("X", "evals", "SLABS", "tail", "NONE") if r.random() < 0.3]
    xs = list(cats) + junk
    r.shuffle(xs)
    v = ",".join(xs)
    return ("," * r.randrange(2) + v).ljust(WIDTH, ",")


def sites(err):
    """How many lines each place printed."""
    n = collections.Counter()
    for l in err.split(b"\n"):
        m = LINE.match(l)
        if m:
            n[(m.group(1).strip(), int(m.group(2)))] += 1
    return n


def run(variant, args, d, cats, r, stdin=b""):
    if cats is None:
        env = {"MNML_DEBUX": "," * WIDTH}
    else:
        env = {"MNML_DEBUG": value(cats, r)}
    return H.run(DEST[variant], args, cwd=d, env=env, stdin=stdin, timeout=120), (env.get("MNML_DEBUG") or "")


def differ(a, b):
    for what, x, y in (("standard output", a.out, b.out), ("exit status", a.rc, b.rc)):
        if x != y:
            return "%s differs: %r without, %r with" % (what, x[-300:] if isinstance(x, bytes) else x,
                                                       y[-300:] if isinstance(y, bytes) else y)
    if a.stats and b.stats and a.stats[:4] != b.stats[:4]:
        return "cells (allocated, released, peak, live) differ: %r without, %r with" % (a.stats[:4], b.stats[:4])
    return None


class Case:
    pass


def make(i):
    r = chk.rng("gen", i)
    g = gen.G(r, "p%d" % (i % 40))
    return g.program(d=r.choice([1, 2, 2, 3]))


def prepare(k, mine):
    r = chk.rng("case", k)
    c = Case()
    c.k, c.r, c.stdin = k, r, b""
    body = "\n".join(D.e2(e) for _, exprs, _ in mine for e in exprs)
    text = "(load 'std 'logic 'math 'io %s)\n%s\nT\n" % (LIB if "map" in body or "fold" in body or LIBRE.search(body)
                                                        else "", body)
    c.text = text
    c.mode = r.choice(["file", "file", "prompt", "expr"])
    return c


LIB = '"@lib/append.l" "@lib/iterators.l" "@lib/rev.l" "@lib/filter.l" "@lib/has.l" "@lib/manips.l"'
LIBRE = re.compile(r"\((append|rev|filter|has|assoc|c[ad]{2,}r|last|rep|truncl|zip)\b|\b(append|rev|filter|has|zip)\b")


def go(c):
    """All the runs of a case: [(complaint, detail, categories)], counts."""
    bad = []
    n = collections.Counter()
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "wb") as fh:
            fh.write(c.text.encode("latin-1"))
        stdin = b""
        if c.mode == "file":
            args = ["-d", p]
        elif c.mode == "prompt":
            args, stdin = [], c.text.encode("latin-1")
        else:
            args = ["-d", "-e", " ".join(c.text.split("\n"))]
        if c.mode == "expr" and len(args[-1]) > 30000:
            args = ["-d", p]

        def one(variant, cats):
            res, v = run(variant, args, d, cats, c.r, stdin)
            n["runs:" + variant] += 1
            why = res.monitor() or ("hang" if res.timeout else None)
            if why:
                bad.append(("tracing %s: %s" % ("+".join(cats or ["nothing"]), why), res.err[-2500:], v))
            return res, v
        ref, _ = one("asan", None)
        if bad:
            return c, bad, n
        if ref.err:
            bad.append(("traces without MNML_DEBUG", ref.err[:500], ""))
        base, v = one("asan", [])
        why = differ(ref, base)
        if why:
            bad.append(("MNML_DEBUG without a category: " + why, b"", v))
        b0 = sites(base.err)
        alone = {}
        for cat in CATS:
            res, v = one("asan", [cat])
            if bad:
                return c, bad, n
            why = differ(ref, res)
            if why:
                bad.append(("%s: %s" % (cat, why), b"", v))
            s = sites(res.err)
            n["lines"] += sum(s.values())
            less = {k: (b0[k], s[k]) for k in b0 if s[k] != b0[k]}
            if less:
                bad.append(("%s changes the lines that belong to no category" % cat, repr(less).encode(), v))
            alone[cat] = s - b0
            n["lines:" + cat] += sum(alone[cat].values())
            if cat == "SLAB" and res.stats:
                al = sum(x for (f, _), x in alone[cat].items() if f == b"slab_allocate")
                fr = sum(x for (f, _), x in alone[cat].items() if f == b"slab_deallocate")
                n["allocations_traced"] += al
                # a few cells are made before the variable is read
                if not res.stats[0] - 8 <= al <= res.stats[0] or fr != res.stats[1]:
                    bad.append(("SLAB: %d allocations and %d releases traced, there were %d and %d"
                                % (al, fr, res.stats[0], res.stats[1]), b"", v))
        for i, a in enumerate(CATS):
            for b in CATS[i + 1:]:
                both = set(alone[a]) & set(alone[b])
                if both:
                    bad.append(("a place traces under both %s and %s" % (a, b), repr(sorted(both)[:3]).encode(), ""))
        for _ in range(chk.n(2, 6)):
            cats = c.r.sample(CATS, c.r.choice([2, 2, 3, 4, 6, len(CATS)]))
            res, v = one("asan", cats)
            if bad:
                break
            why = differ(ref, res)
            if why:
                bad.append(("%s: %s" % ("+".join(cats), why), b"", v))
            want = collections.Counter(b0)
            for cat in cats:
                want.update(alone[cat])
            s = sites(res.err)
            n["sets"] += 1
            if s != want:
                dif = {k: (want[k], s[k]) for k in set(s) | set(want) if s[k] != want[k]}
                bad.append(("the lines of %s are not those of each of them" % "+".join(cats),
                            b"place: (lines of each alone, lines together): " + repr(sorted(dif.items())[:6]).encode(),
                            v))
        # the release configuration has no traces
        rel, _ = one("rel", None)
        res, v = one("rel", CATS)
        why = differ(rel, res)
        if why:
            bad.append(("release configuration: " + why, b"", v))
        if res.err != rel.err:
            bad.append(("release configuration: standard error differs", res.err[:500], v))
        if rel.out != ref.out and c.mode == "file":
            bad.append(("debug and release configurations differ", b"%r\n%r" % (ref.out[-300:], rel.out[-300:]), ""))
    return c, bad, n


cases = D.generate(chk, make, chk.n(70, 2000))
per = 2
jobs = [prepare(k, cases[k:k + per]) for k in range(0, len(cases), per)]
chk.sample(jobs[0].text)
for c, bad, n in H.pmap(go, jobs):
    for k, x in n.items():
        chk.count(k, x)
    chk.count("mode:" + c.mode)
    chk.saw(c.text)
    for what, detail, v in bad[:2]:
        chk.violation(what, "MNML_DEBUG=%s\n%s" % (v, detail.decode("latin-1")), c.text)
    if chk.too_many():
        break


# ---------------------------------------------------------------- values of every shape, misuse, malformed text
def wild(i):
    r = chk.rng("wild", i)
    kind = r.choice(["misuse", "text", "values"])
    if kind == "misuse":
        text = "(load 'std 'logic 'math 'io 'unix 'sys)\n" + "\n".join(W.misuse(r) for _ in range(12)) + "\nT\n"
    elif kind == "text":
        text = "(load 'std 'logic 'math 'io)\n" + "\n".join(W.text(r) for _ in range(4)) + "\nT\n"
    else:
        vals = []
        for _ in range(6):
            n = r.choice([0, 1, 2, 100, 1022, 1023, 1024, 1025, 3000])
            c = r.choice("ax%\\")
            s, n = n, min(n, 300)
            vals.append(r.choice(['"%s"' % ((c if c != "\\" else "y") * s), "'(" + "(" * (n % 50) + ")" * (n % 50) + ")",
                                  "'(" + "1 " * n + ")", "'(" + "^a " * n + ". b)", "(\\ (x) x)", "((\\ (a b c) a) %d)" % n,
                                  "'(^\\n ^\\e ^\\t ^\\r ^% ^s)", "'(%s %n _ T NIL)", "'abcdefghijklmnop", "-9223372036854775808"]))
        text = "(load 'std 'logic 'math 'io)\n" + "\n".join("(setq v%d %s) (list v%d 'x)" % (j, v, j)
                                                            for j, v in enumerate(vals)) + "\nT\n"
    cats = CATS if r.random() < 0.3 else r.sample(CATS, r.choice([1, 2, 4]))
    with H.Scratch() as d:
        p = os.path.join(d, "t.l")
        with open(p, "wb") as fh:
            fh.write(text.encode("latin-1"))
        if kind == "text" and r.random() < 0.5:
            res, v = run("asan", [], d, cats, r, text.encode("latin-1"))
        else:
            res, v = run("asan", [p], d, cats, r)
    return kind, text, v, res


for kind, text, v, res in H.pmap(wild, range(chk.n(120, 4000))):
    chk.count("wild:" + kind)
    chk.saw((text, v))
    why = res.monitor() or ("hang" if res.timeout else None)
    if why:
        chk.violation("tracing %s: %s" % (v.strip(","), why), res.err[-3000:].decode("latin-1"), text)
chk.finish(minimum=chk.n(100, 2000))
