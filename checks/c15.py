#!/usr/bin/env python3
"""C15: a function compiled by mnmlc does what its source does."""
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import ccgen
import diff as D
import gen as G
import harness as H
import model as M

chk = H.Check("C15")
chk.rule = ("random functions of the part of the language the transpiler supports (all conversion shapes: plain, right and "
            "left recursion over lists and numbers, branches, callbacks, calls of other compiled functions) are compiled "
            "by the real mnmlc, built and loaded; random calls (also partial, nested, with printing callbacks) must print "
            "and return the same as the source functions, under the sanitizers and the cell monitor, and release every "
            "cell; likewise the shipped compiled modules against their sources; distinct batches counted")

M.LIMIT[:] = [3000, 20000]
PROLOGUE = "(load 'logic 'math 'std)\n"
LOADS = "(load 'std 'logic 'math 'io 'sys)\n(def rev0 (x0) (cons (cdr x0) NIL))\n"


def small(v, limit):
    """Fewer than LIMIT nodes when written out."""
    n, todo = 0, [v]
    while todo:
        n += 1
        if n > limit:
            return False
        x = todo.pop()
        if isinstance(x, M.Pair):
            todo += [x.car, x.cdr]
    return True


def defined(funs, calls):
    """The calls that end, say within a few thousand steps."""
    out = []
    for c in calls:
        it = M.Interp(4000)
        try:
            for f in funs:
                it.top(M.read_all(f.text)[0])
            it.top(M.read_all("(def rev0 (x0) (cons (cdr x0) NIL))")[0])
            v = it.top(M.read_all(c)[0])
            if small(v, 2000) and sum(map(len, it.out)) < 6000:
                out.append(c)
        except (M.Unsupported, M.ReadError, RecursionError):
            pass
    return out


def make(i):
    r = chk.rng("fun", i)
    g = ccgen.Gen(r)
    for k in range(8):
        g.funs.append(g.fun("uf%d" % k))
    calls = [g.callof(f) for f in g.funs for _ in range(8)]
    return g.funs, defined(g.funs, calls)


def generate(n):
    def part(k):
        return [(i,) + make(i) for i in range(k, n, H.JOBS)]
    out = []
    for p in H.fork_map(lambda k: M.run_threaded(lambda: part(k)), range(H.JOBS)):
        out += p
    return sorted(out, key=lambda c: c[0])


def program(setup, calls):
    t = [setup]
    for k, c in enumerate(calls):
        t.append('(prinl "\x01%d\x01")' % k)
        t.append(D.e2(c))
    t.append('(prinl "\x01END\x01") T')
    return "\n".join(t) + "\n"


def cflags(variant, i):
    """Optimisation and undefined behaviour checks take long; not for each batch."""
    fs = B.VARIANTS[variant]["cflags"]
    if i % 8 < 2:
        return fs
    return [f for f in fs if not f.startswith(("-g", "-O", "-fsan", "-fno-san"))] + ["-O0", "-fsanitize=address"]


def compile_batch(dest, variant, d, i, funs):
    """usr.l -> usr.c -> libusr.so; returns a complaint or None."""
    comp = dest if i % 8 in (2, 3) else dests["plain"]
    home = os.path.join(d, "home")
    os.makedirs(os.path.join(home, ".mnml"))
    with open(os.path.join(d, "usr.l"), "w") as fh:
        fh.write(PROLOGUE + "\n".join(f.text for f in funs) + "\n")
    env = {"HOME": home, "MNML_SCRIPT_PATH": os.path.join(B.REPO, "share", "mnml")}
    r = H.run(comp, [os.path.join(B.REPO, "bin", "mnmlc"), "-c", os.path.join(d, "usr.l"), "-m", "usr", "-s",
                     ",".join(f.name for f in funs), "-o", os.path.join(d, "usr.c")], cwd=d, timeout=240, env=env)
    if r.monitor():
        return "mnmlc: " + r.monitor() + "\n" + r.err[-3000:].decode("latin-1")
    if r.timeout or r.rc != 0:
        return "mnmlc %s\n%s" % ("timed out" if r.timeout else "rc=%s" % r.rc, (r.out + r.err)[-2000:].decode("latin-1"))
    with open(os.path.join(d, "usr.c")) as fh:
        text = fh.read()
    m = re.search(r".*(Unsupported|abort).*", text)
    if m:
        return "mnmlc refused a supported function: " + m.group(0)
    try:
        B.run(["gcc", "-std=gnu99", "-w", "-fPIC", "-fwrapv", "-U_FORTIFY_SOURCE", "-I" + os.path.join(B.REPO, "include")]
              + B.DEFS + cflags(variant, i)
              + ["-shared", "-o", os.path.join(home, ".mnml", "libusr.so"), os.path.join(d, "usr.c")])
    except B.BuildError as e:
        return "the generated C does not compile\n" + str(e)[-3000:]
    chk.count("functions_compiled", len(funs))
    return None


def run_prog(dest, d, name, text):
    with open(os.path.join(d, name), "w") as fh:
        fh.write(text)
    return H.run(dest, ["-d", name], cwd=d, timeout=90,
                 env={"HOME": os.path.join(d, "home"), "MNML_SCRIPT_PATH": os.path.join(B.REPO, "share", "mnml")})


def compare(tag, calls, a, b, replay):
    """a: run on the source, b: run on the compiled functions."""
    if a.monitor() or a.timeout or a.rc != 0:
        chk.count("source_run_failed")
        chk.inconclusive += 1
        return
    ga, gb = D.markers(a.out), D.markers(b.out)
    chk.saw(replay)
    chk.count("calls_compared", len(calls))
    for k, c in enumerate(calls):
        if ga.get(str(k)) != gb.get(str(k)):
            why = b.monitor() or ("timeout" if b.timeout else "rc=%s" % b.rc)
            chk.violation("compiled differs from source: " + (b.monitor() or "output"),
                          "%s\n%s\n%s\n-- source --\n%s\n-- compiled --\n%s\n-- stderr --\n%s" % (
                              tag, c, why, (ga.get(str(k)) or b"").decode("latin-1"),
                              (gb.get(str(k)) or b"<nothing>").decode("latin-1"), b.err[-3000:].decode("latin-1")), replay)
            return
    if b.monitor():
        chk.violation("compiled: " + b.monitor(), tag + "\n" + b.err[-3000:].decode("latin-1"), replay)
    elif b.timeout:
        chk.violation("compiled: hang", tag, replay)
    elif b.rc != 0 or (b.stats and b.live() != 0):
        chk.violation("compiled: cells not released (rc=%s live=%s)" % (b.rc, b.live()), tag, replay)


dests = {v: chk.build(v) for v in ("asan", "rel", "plain")}

# 1. random functions
batches = generate(chk.n(230, 4000))


def one(job):
    i, funs, calls = job
    variant = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        bad = compile_batch(dests[variant], variant, d, i, funs)
        if bad:
            return job, variant, bad, None, None
        a = run_prog(dests[variant], d, "s.l", program(LOADS + '(load "usr.l")', calls))
        b = run_prog(dests[variant], d, "c.l", program(
            LOADS + '(load \'(usr %s))' % " ".join(f.name for f in funs), calls))
        return job, variant, None, a, b


for (i, funs, calls), variant, bad, a, b in H.pmap(one, batches):
    text = "\n".join(f.text for f in funs) + "\n;calls\n" + "\n".join(calls)
    chk.count("batches:" + variant)
    chk.count("calls_generated", len(calls))
    for f in funs:
        chk.count("shape:%s->%s" % (f.rec, f.ret))
    chk.sample(text, 2)
    if bad:
        chk.saw(text)
        chk.violation("not compiled: " + bad.split("\n")[0], bad, text)
        continue
    compare("batch %d, variant %s" % (i, variant), calls, a, b, text)

# the known finding: a compiled or evaluates its second operand in any case
KF = ccgen.Fun("uf0", [("a", "F"), ("b", "L")], "L", "(def uf0 (a b) (if (or (nil? b) (nil? (a b))) b (cdr b)))", "plain")
job, _, bad, a, b = one((0, [KF], ["(uf0 (\\ (x0) (print x0) x0) NIL)"]))
chk.count("known_finding_runs")
if bad:
    chk.violation("not compiled: " + bad.split("\n")[0], bad, KF.text)
elif D.markers(a.out).get("0") == b"=> NIL\n" and D.markers(b.out).get("0") == b"NIL=> NIL\n":
    chk.violation("or-evaluates-both: %s called with a printing callback and NIL" % KF.text, "", KF.text)
else:
    compare("or", ["0"], a, b, KF.text)

# 2. the shipped modules
for v, dest in dests.items():
    for m in B.TRANSPILED:
        try:
            with open(os.path.join(dest, "transpiled", m + ".log")) as fh:
                log = fh.read()
        except OSError:
            log = "no log"
        try:
            with open(os.path.join(dest, "transpiled", m + ".c")) as fh:
                c = fh.read()
        except OSError:
            c = "abort: no output"
        u = re.search(r".*(Unsupported|abort).*", c)
        if "rc=0" not in log or "BUILD FAILED" in log or u:
            chk.violation("shipped module %s is not compiled" % m, log + ("\n" + u.group(0) if u else ""))

LIB = ["foldl", "foldr", "map", "map2", "zip", "assoc", "caar", "cddr", "cadar", "caddr", "cadr", "cdar", "last", "rep",
       "truncl"]


def elem(r, d=2):
    x = r.random()
    if x < 0.4 or d == 0:
        return str(r.randrange(-9, 100))
    if x < 0.55:
        return r.choice("abcdefg") + str(r.randrange(9))
    if x < 0.62:
        return "NIL"
    if x < 0.68:
        return '"%s"' % r.choice(["a", "xy", "hello"])
    if x < 0.74:
        return "^" + r.choice("abc")
    return lst(r, d - 1)


def lst(r, d=2, n=None):
    n = r.choice([0, 1, 2, 3, 4, 6, 9]) if n is None else n
    return "(%s)" % " ".join(elem(r, d) for _ in range(n)) if n else "NIL"


def q(t):
    return t if t == "NIL" else "'" + t


def fn1(r):
    return r.choice(["(\\ (x0) x0)", "(\\ (x0) (cons x0 NIL))", "(\\ (x0) (print x0) x0)", "lst?", "(cons 1)",
                     "(\\ (x0) (map (\\ (y0) (cons y0 x0)) '(1 2)))", "(\\ (x0) (list x0 x0))", "(\\ (x0) NIL)",
                     "(\\ (x0) (foldl (\\ (a0 b0) (cons b0 a0)) NIL (list x0 x0)))", "(conc '(9))", "num?",
                     "(let ((z0 . 5)) (\\ (x0) (list z0 x0)))"])


def fn2(r):
    return r.choice(["(\\ (x0 y0) (cons y0 x0))", "cons", "(\\ (x0 y0) (print x0 y0) x0)", "list", "(\\ (x0 y0) NIL)",
                     "(\\ (x0 y0) (list y0 (map (cons x0) (list y0 y0))))", "(\\ (x0 y0) y0)", "=", "<>",
                     "(\\ (x0 y0) (last (list x0 y0)))"])


def make2(i):
    r = chk.rng("lib", i)
    out = []
    for _ in range(40):
        f = r.choice(LIB)
        if f == "foldl":
            args = [fn2(r), q(elem(r)), q(lst(r))]
        elif f == "foldr":
            args = [fn2(r), q(lst(r)), q(elem(r))]
        elif f == "map":
            args = [fn1(r), q(lst(r))]
        elif f == "map2":
            n = r.choice([0, 1, 2, 4])
            args = [fn2(r), q(lst(r, n=n)), q(lst(r, n=n))]
        elif f == "zip":
            n = r.choice([0, 1, 2, 4])
            args = [q(lst(r, n=n)), q(lst(r, n=n))]
        elif f == "assoc":
            k = ["a%d" % j for j in range(r.choice([0, 1, 3, 5]))]
            r.shuffle(k)
            args = [q("a%d" % r.randrange(6)), "'(%s)" % " ".join("(%s . %s)" % (x, elem(r)) for x in k) if k else "NIL"]
        elif f == "rep":
            args = [str(r.choice([0, 1, 2, 5, 20])), q(elem(r))]
        elif f == "truncl":
            n = r.choice([1, 2, 3, 5])
            args = [str(r.randrange(0, n + 1)), q(lst(r, n=n))]
        elif f == "last":
            args = [q(lst(r))]
        else:
            args = [q("((%s %s %s) (%s %s) %s %s)" % tuple(elem(r) for _ in range(7)))]
        args = [re.sub(r"^'(-?[0-9]|\"|\^)", r"\1", a) for a in args]
        x = r.random()
        if len(args) > 1 and x < 0.3:
            k = r.randrange(1, len(args))
            t = "((%s %s) %s)" % (f, " ".join(args[:k]), " ".join(args[k:]))
        elif len(args) > 1 and x < 0.4:
            k = r.randrange(1, len(args))
            t = "(let ((p0 . (%s %s))) (list (p0 %s) (p0 %s)))" % (f, " ".join(args[:k]), *[" ".join(args[k:])] * 2)
        elif x < 0.5:
            t = "(let ((%s)) %s)" % (") (".join("v%d . %s" % (j, a) for j, a in enumerate(args)),
                                    "(%s %s)" % (f, " ".join("v%d" % j for j in range(len(args)))))
        else:
            t = "(%s %s)" % (f, " ".join(args))
        out.append(t)
    return out


def two(i):
    calls = make2(i)
    variant = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        os.mkdir(os.path.join(d, "home"))
        a = run_prog(dests[variant], d, "s.l", program(LOADS + '(load "@lib/iterators.l" "@lib/manips.l")', calls))
        b = run_prog(dests[variant], d, "c.l", program(LOADS + "(load 'iterators 'manips)", calls))
        return i, variant, calls, a, b


for i, variant, calls, a, b in H.pmap(two, range(chk.n(60, 600))):
    chk.count("library_batches")
    text = program(LOADS + "(load 'iterators 'manips)", calls)
    compare("shipped modules, variant " + variant, calls, a, b, text)

# ---------------------------------------------------------------- the command line of mnmlc
USAGE = ("Usage: mnmlc -c FILE.l -o FILE.c -m MODULE -s SYM1,SYM2,...\n\n  -c  Minima.l source file\n  -m  Module name\n"
         "  -o  Target C file\n  -s  Comma-separated list of symbols\n  -h  Print this help\n").encode()
FUNS = ["(def f1 (a b) (if (nil? a) (cons b a) (cons a b)))", "(def f2 (a) (+ a 1))", "(def f3 (a b c) (cons a (cons b c)))",
        "(def f4 (f a) (f (car a) (cdr a)))"]


def driver(i):
    r = chk.rng("driver", i)
    syms = r.sample(["f1", "f2", "f3", "f4"], r.choice([1, 1, 2, 4]))
    missing = r.choice([None, None, None, "-c", "-m", "-o", "-s", "source", "-h"])
    dest = dests["asan" if i % 4 == 0 else "rel"]
    files, notes = [], []
    with H.Scratch() as d:
        open(os.path.join(d, "src.l"), "w").write(PROLOGUE + "\n".join(r.sample(FUNS, 4)) + "\nT\n")
        env = {"MNML_SCRIPT_PATH": os.path.join(B.REPO, "share", "mnml")}
        for k in range(2):
            opts = [["-c", os.path.join(d, "none.l" if missing == "source" else "src.l")], ["-m", "mod"], ["-o", "out%d.c" % k],
                    ["-s", ",".join(syms)]]
            if missing == "-h":
                opts.append(["-h"])
                drop = r.choice([0, 1, 2, 3])
                del opts[drop]
            opts = [o for o in opts if o[0] != missing or missing == "-h"]
            r.shuffle(opts)
            if k == 0 and r.random() < 0.3:
                open(os.path.join(d, "out0.c"), "w").write("/* left from before */\n" * 1000)
                old = True
            else:
                old = False
            res = H.run(dest, ["-d", os.path.join(B.REPO, "bin", "mnmlc")] + sum(opts, []), cwd=d, timeout=120, env=env)
            p = os.path.join(d, "out%d.c" % k)
            want = b"" if missing is None else USAGE
            if missing == "source":
                want = b"Failed to load: " + os.path.join(d, "none.l").encode() + b"\n" + USAGE
            if res.monitor() or res.timeout:
                notes.append(res.monitor() or "hang")
            elif res.out != want:
                notes.append("prints %r, not %r" % (res.out[:300], want[:300]))
            elif res.rc == 254:
                notes.append("cells not released")
            if missing is None:
                files.append(open(p, "rb").read() if os.path.exists(p) else None)
                if files[-1] is None:
                    notes.append("no output file")
                elif any(b"LISP_MODULE_SETUP(%s" % s.encode() not in files[-1] for s in syms) or \
                        files[-1].count(b"LISP_MODULE_SETUP") != len(syms):
                    notes.append("the output does not define exactly the symbols asked for")
            elif os.path.exists(p) and not old:
                notes.append("wrote its output although it could not compile")
        if len(files) == 2 and files[0] != files[1]:
            notes.append("the order of the options changes the output")
    return missing, syms, notes, res


for missing, syms, notes, res in H.pmap(driver, range(chk.n(48, 600))):
    chk.count("command_lines:%s" % (missing or "complete"))
    chk.saw("driver %s %s" % (missing, syms))
    if notes:
        chk.violation("mnmlc (%s missing): %s" % (missing, notes[0]), "%s\n%s" % (notes, res.err[-1500:].decode("latin-1")),
                      "mnmlc -s %s, without %s\n" % (",".join(syms), missing))
if chk.evals and chk.counts.get("source_run_failed", 0) * 8 > chk.evals:
    print("INCONCLUSIVE property=C15: the source runs fail")
    chk.evidence()
    if not chk.viol:
        sys.exit(2)
chk.finish(minimum=chk.n(100, 1000))
