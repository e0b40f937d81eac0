#!/usr/bin/env python3
"""C20: the command line: exit status, ARGV, ENV, -e, flags and the prompt."""
import errno
import os
import signal
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import diff as D
import gen
import harness as H
import interact as I
import model as M

chk = H.Check("C20")
chk.rule = ("generated programs run as a script, through a #! line, with -e and at the prompt (several expressions per "
            "line, expressions over several lines, quit in the middle) with random flags: the exact output and "
            "transcript and the exit status are compared with the model; random argument vectors and environments "
            "(any byte, empty, long, like options) compared byte for byte with ARGV and ENV; distinct command lines counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
NIL = M.NIL


# ---------------------------------------------------------------- programs

def make(i):
    """-> texts, [(output, value)], or None"""
    r = chk.rng(i)
    g = gen.G(r, "p%d" % (i % 40))
    exprs = g.program(d=r.choice([2, 3, 4]))
    for _ in range(r.choice([0, 1, 3])):
        exprs.insert(r.randrange(len(exprs) + 1), r.choice([
            "NIL", "T", "5", "'sym", "\"text\"", "()", "(car NIL)", "(prin \"no newline\")", "(prinl)", "(print '(a b))",
            "(= 1 2)", "^a", "_", "unbound-symbol", "(printl \"\")"]))
    if r.random() < 0.5:
        exprs.append(r.choice(["NIL", "T", "()", "0", "(= 1 2)", "(= 1 1)", "(cdr '(1))", "unbound-symbol", "\"\"", "\" \"",
                               "(prinl \"x\")", "(print NIL)", "'NIL", "_", "(if (= 1 2) 3)", "(while NIL)"]))
    it = M.Interp(30000)
    it.library()
    out = []
    try:
        for t in exprs:
            mark = len(it.out)
            v = it.top(M.read_all(t)[0])
            text = b"".join(it.out[mark:])
            try:
                s = M.show(v)
            except M.Unsupported:
                s = None        # a function
            out.append((text, v is NIL, s))
            if sum(map(len, it.out)) > 20000:
                return None
    except (M.Unsupported, M.ReadError, RecursionError):
        return None
    return exprs, out


def lay(e, r):
    """The expression over several lines now and then."""
    if r.random() < 0.8 or '"' in e or "^" in e:
        return e
    return e.replace(") (", r.choice([")\n(", ") # comment\n  (", ")\n\n ("]))


HEAD = D.HEADER.replace("\n", " ").strip() + "\n"
FLAGS = [[], [], ["-d"], ["-d"], ["--"], ["-d", "--"]]


def program(job):
    i, (exprs, outs) = job
    r = chk.rng("run", i)
    variant = "asan" if r.random() < 0.6 else "rel"
    dest = DEST[variant]
    how = r.choice(["script", "script", "shebang", "expr", "expr", "prompt", "prompt", "quit"])
    flags = list(r.choice(FLAGS))
    n = len(exprs)
    want_rc = 255 if outs[-1][1] else 0
    stdin = b""
    with H.Scratch() as d:
        p = os.path.join(d, r.choice(["t.l", "t", "my script.l", "x" * 200]))
        if how in ("script", "shebang"):
            body = HEAD + "\n".join(lay(e, r) for e in exprs) + r.choice(["\n", "", " # end", "\n\n"])
            if how == "shebang":
                body = "#!%s\n" % os.path.join(dest, "bin", "mnml") + body
                flags = []
            with open(p, "wb") as fh:
                fh.write(body.encode("latin-1"))
            os.chmod(p, 0o755)
            args = flags + [p if r.random() < 0.5 else os.path.basename(p)]
            want = b"".join(o[0] for o in outs)
        elif how == "expr":
            body = HEAD + r.choice(["\n", " ", " # c\n"]).join(lay(e, r) for e in exprs) + r.choice(["", "\n", " # end"])
            if len(body) > 60000:
                return None
            flags = [f for f in flags if f != "--"]
            args = flags + r.choice([["-e", body], ["-e" + body], ["-e", body, "--"]])
            want = b"".join(o[0] for o in outs)
        else:
            if any(o[2] is None for o in outs):
                return None
            if how == "quit":
                k = r.randrange(n + 1)
                exprs, outs = exprs[:k] + ["(quit)"] + exprs[k:], outs[:k] + [(b"", False, b"T")]
                want_rc = 0
            else:
                want_rc = 255       # the end of the input
            body = HEAD + "'ready\n"
            want = b""
            j = 0
            while j < len(exprs):
                k = r.choice([1, 1, 1, 2, 4])
                body += r.choice(["", "", "\n", "# c\n", "  "]) + " ".join(lay(e, r) for e in exprs[j:j + k]) + \
                    r.choice(["\n", "\n", " \n", " # c\n"])
                if j < len(outs):
                    want += b": "
                for o in outs[j:j + k]:
                    want += o[0] + b"> " + o[2] + b"\n"
                j += k
            if how == "prompt":
                want += b": "
            stdin = body.encode("latin-1")
            args = flags
        if how == "shebang":
            res = direct([p], d, dest)
        else:
            res = H.run(dest, args, cwd=d, stdin=(stdin, r) if how == "prompt" and r.random() < 0.3 else stdin,
                        timeout=60)
    got = res.out
    if how in ("prompt", "quit"):
        k = got.find(b"> (quote . ready)\n")
        k = got.find(b"> ready\n") if k < 0 else k
        got = got[got.index(b"\n", k) + 1:] if k >= 0 else got
    return i, variant, how, flags, body, want, got, want_rc, res


def direct(cmd, d, dest, env=None, stdin=b"", timeout=60, exact=False):
    """Run a command as it is, with exactly this environment when asked."""
    e = env if exact else H.base_env(dest, env)
    if not exact:
        e["PWD"] = d
    res = H.Result()
    res.stats = None
    for k in range(200):
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d,
                                 env=e, start_new_session=True)
            break
        except OSError as x:
            # the script was just written, and another thread is between its fork and its exec
            if x.errno != errno.ETXTBSY or k == 199:
                raise
            time.sleep(0.01)
    try:
        res.out, res.err = p.communicate(stdin, timeout=timeout)
        res.timeout = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        res.out, res.err = p.communicate()
        res.timeout = True
    res.rc = p.returncode
    return res


# ---------------------------------------------------------------- ARGV and ENV

def rbytes(r, n=None):
    if n is None:
        n = r.choice([0, 1, 2, 5, 12, 40, 300, 3000])
    pool = r.choice([list(range(97, 123)), list(range(32, 127)), list(b"\"'\\()^#. \n\t-=`~"), list(range(1, 256)),
                     list(range(128, 256))])
    return bytes(r.choice(pool) for _ in range(n))


def argvec(r):
    out = []
    for _ in range(r.choice([0, 1, 2, 5, 20])):
        x = r.random()
        if x < 0.3:
            out.append(r.choice([b"-d", b"-e", b"--", b"-h", b"-v", b"-b", b"-x", b"", b"-", b"--help", b"=", b"NIL", b"T",
                                 b"(quit)", b"-e(quit)", b"/dev/null", b"~", b"@lib", b"*", b"$HOME", b"\\n"]))
        else:
            out.append(rbytes(r))
    return out


def envvec(r, dest, d):
    env = {k.encode(): v.encode() for k, v in H.base_env(dest).items()}
    env[b"PWD"] = d.encode()
    for _ in range(r.choice([0, 1, 5, 30, 150])):
        k = rbytes(r, r.choice([1, 3, 8, 17, 60])).replace(b"=", b"_")
        if r.random() < 0.1:
            k = r.choice([b"ENV", b"ARGV", b"EMPTY", b"a b", b"(", b"X" * 500])
        if k in env or k.startswith((b"MNML", b"LD_", b"ASAN", b"UBSAN", b"LSAN", b"TSAN", b"MALLOC", b"GLIBC")):
            continue
        v = rbytes(r)
        if r.random() < 0.1:
            v = r.choice([b"=", b"a=b=c", b"", b" ", b"=" * 40, b"NIL", b"\n"])
        env[k] = v
    items = list(env.items())
    r.shuffle(items)
    return dict(items)


def vectors(i):
    r = chk.rng("vec", i)
    variant = "asan" if i % 2 else "rel"
    dest = DEST[variant]
    exe = os.path.join(dest, "bin", "mnml")
    with H.Scratch() as d:
        env = envvec(r, dest, d)
        args = argvec(r)
        name = r.choice([b"t.l", b"a b.l", b"\xc3\xa9.l", b"sub/t.l", b"-t.l"])
        p = os.path.join(d.encode(), name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        body = b"(load 'std 'io)\n(printl ARGV)\n(printl ENV)\n(prinl (len ARGV))\nARGV\n"
        with open(p, "wb") as fh:
            fh.write(b"#!%s\n" % exe.encode() + body)
        os.chmod(p, 0o755)
        how = r.choice(["script", "script", "full", "shebang", "prompt", "expr", "flags"])
        stdin = b""
        if how == "script" and not name.startswith(b"-"):
            cmd, argv = [exe.encode(), name] + args, [name] + args
        elif how in ("script", "full"):
            cmd, argv = [exe.encode(), p] + args, [p] + args
        elif how == "flags":
            cmd, argv = [exe.encode(), b"-d", b"--", name] + args, [name] + args
        elif how == "shebang":
            cmd, argv = [p] + args, [p] + args
        else:
            argv = []
            if how == "expr":
                cmd = [exe.encode(), b"-e", body]
            else:
                cmd, stdin = [exe.encode()], body
        if sum(map(len, cmd)) + sum(len(k) + len(v) for k, v in env.items()) > 500000:
            return None
        res = direct(cmd, d, dest, env, stdin, exact=True)
    a = M.from_list([M.string(x) for x in argv])
    e = M.from_list([M.Pair(M.string(k), M.string(v)) for k, v in env.items() if v])
    want = M.show(a) + b"\n" + M.show(e) + b"\n" + (b"%d" % len(argv) if argv else b"0") + b"\n"
    got = res.out
    rc = 0 if argv else 255
    if how == "prompt":
        # the results are shown after what printl wrote
        parts = (M.show(a), M.show(e), b"%d" % len(argv))
        ok = got.count(parts[0] + b"\n") and got.count(parts[1] + b"\n")
        if ok:
            got = want
    return i, variant, how, cmd, want, got, rc, res


# ---------------------------------------------------------------- flags and corners

def corners():
    d1 = "(load 'std 'logic 'math 'io) "
    out = []
    leak = d1 + "(let ((a . (list 1))) (conc a a) %s)"
    big = "".join("(setq v%d %d) " % (k, k) for k in range(2000))
    # args, stdin, files, expected rc, expected stdout (None: any)
    cases = [
        (["-e", "5"], b"", {}, 0, b""), (["-e", "NIL"], b"", {}, 255, b""), (["-e", ""], b"", {}, 255, b""),
        (["-e", "   # only a comment"], b"", {}, 255, b""), (["-d", "-e", "5"], b"", {}, 0, b""),
        (["-de", "5"], b"", {}, 0, b""), (["-d", "-e5"], b"", {}, 0, b""), (["-be", "5"], b"", {}, 0, b""),
        (["-e", "def"], b"", {}, 0, b""), (["-b", "-e", "def"], b"", {}, 255, b""),
        (["-b", "-e", "ENV"], b"", {}, 255, b""), (["-e", "ENV"], b"", {}, 0, b""),
        (["-b", "-e", "CONFIG"], b"", {}, 255, b""), (["-e", "CONFIG"], b"", {}, 0, b""), (["-e", "ARGV"], b"", {}, 255, b""),
        (["-b", "t.l"], b"", {"t.l": "ARGV"}, 255, b""), (["-b", "-d", "t.l"], b"", {"t.l": "'a"}, 0, b""),
        (["-b", "-d"], b"5\n(1 2)\nx\n", {}, 255, b": > 5\n: > (1 2)\n: > NIL\n: "),
        (["-e", leak % "5"], b"", {}, 0, b""), (["-d", "-e", leak % "5"], b"", {}, 254, b""),
        (["-e", leak % "NIL"], b"", {}, 255, b""), (["-d", "-e", leak % "NIL"], b"", {}, 254, b""),
        (["-d", "t.l"], b"", {"t.l": leak % "5"}, 254, b""), (["t.l"], b"", {"t.l": leak % "5"}, 0, b""),
        (["-d"], (leak % "5" + "\n").encode(), {}, 254, None),
        (["-d", "-e", d1 + big + "(prinl v1999)"], b"", {}, 0, b"1999\n"),
        (["missing.l"], b"", {}, 255, b""), (["-d", "missing.l"], b"", {}, 255, b""), (["."], b"", {}, 255, b""),
        (["t.l"], b"", {"t.l": ""}, 255, b""), (["t.l"], b"", {"t.l": "\n# nothing\n"}, 255, b""),
        (["-d", "t.l"], b"", {"t.l": "5 NIL"}, 255, b""), (["-d", "t.l"], b"", {"t.l": "NIL 5"}, 0, b""),
        (["-d", "sub/t.l", "x"], b"", {"sub/t.l": '(load "u.l")', "sub/u.l": "7"}, 0, b""),
        (["-d", "sub/t.l", "x"], b"", {"sub/t.l": '(load "u.l")', "sub/u.l": "7 NIL"}, 255, b""),
        ([], b"", {}, 255, b": "), (["-d"], b"", {}, 255, b": "), (["-d"], b"\n\n", {}, 255, b": "),
        (["-d", "-e", d1 + "(printl (read)) (printl (read)) (printl (read))"], b"(a b) 5\n7", {}, 0, b"(a b)\n5\n7\n"),
        (["-d", "-e", d1 + "(prinl (readline)) (prinl (readline))"], b"l1\nl2\n", {}, 0, b"l1\nl2\n"),
        (["-d", "t.l"], b"first\nsecond\n", {"t.l": d1 + "(in NIL (prinl (readline)) (prinl (readline)))"}, 0,
         b"first\nsecond\n"),
        (["-d"], b"(load '(io readline)) (readline)\nthe line\n5\n", {}, 255, None),
        (["-e", d1 + '(prinl "a") NIL (prinl "b") NIL'], b"", {}, 255, b"a\nb\n"),
        (["-e", d1 + '(prinl "a") (quit) (prinl "b")'], b"", {}, 0, b"a\n"),
        (["-e", d1 + "(out NIL (prinl \"o\"))"], b"", {}, 0, b"o\n"),
        (["-e", d1 + "(map"], b"", {}, 0, b""), (["-e", "(car '(1"], b"", {}, 255, b""), (["-e", "5 (car '(1"], b"", {}, 0, b""),
    ]
    for args, stdin, files, rc, want in cases:
        out.append((args, stdin, files, rc, want))
    # a terminated standard input in the middle of what is read
    return out


def corner(job):
    k, (args, stdin, files, rc, want) = job
    variant = ("asan", "rel")[k % 2]
    with H.Scratch() as d:
        for f, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "w") as fh:
                fh.write(t)
        res = H.run(DEST[variant], args, stdin=stdin, cwd=d, timeout=60)
    return k, variant, args, stdin, rc, want, res


def usage():
    """-h, -v, an unknown option."""
    for variant, dest in DEST.items():
        v = H.run(dest, ["-v"])
        chk.saw(variant + "-v")
        cfg = H.run(dest, ["-e", "(load 'std 'io) (prinl (cdr (car (cdr (cdr (cdr (cdr CONFIG)))))) \" \" (car (car (cdr "
                                 "(cdr (cdr (cdr CONFIG)))))))"])
        if v.rc != 0 or cfg.out.strip().split(b" ")[0] != v.out.strip() or not v.out.strip():
            names = H.run(dest, ["-e", "(load 'std 'io) (printl CONFIG)"])
            if v.rc != 0 or v.out.strip() not in b"".join(names.out.split(b"^")).replace(b" ", b""):
                chk.violation("-v", "rc %s, %r, CONFIG %r" % (v.rc, v.out, names.out[:500]))
        h = H.run(dest, ["-h"])
        chk.saw(variant + "-h")
        if h.rc != 0 or b"Usage" not in h.err + h.out:
            chk.violation("-h", "rc %s, %r" % (h.rc, h.err[:300]))
        for bad in (["-x"], ["-e"], ["-d", "-q", "t.l"], ["--help"]):
            b = H.run(dest, bad)
            chk.saw(variant + repr(bad))
            if b.rc == 0 or b"Usage" not in b.err + b.out or b.monitor():
                chk.violation("unknown option", "%r: rc %s, %r" % (bad, b.rc, b.err[:300]))
        p = H.run(dest, ["-e", "(load 'std 'io) (printl CONFIG)"])
        chk.saw(variant + "prefix")
        flat = b"".join(p.out.split(b"^")).replace(b" ", b"")
        if os.path.realpath(dest).encode() not in flat and dest.encode() not in flat:
            chk.violation("CONFIG has another prefix", "%r" % p.out[:600])


usage()
for k, variant, args, stdin, rc, want, res in H.pmap(corner, list(enumerate(corners())) * 2):
    chk.saw(repr((variant, args, stdin)))
    chk.count("corners")
    m = res.monitor()
    if m or res.timeout or res.rc != rc or (want is not None and res.out != want):
        chk.violation("corner: %s" % (m or ("hang" if res.timeout else "status or output")),
                      "%s mnml %r < %r\nexpected status %s and %r\ngot status %s and %r\n%s" % (
                          variant, args, stdin, rc, want, res.rc, res.out[:1000], res.err[-1500:].decode("latin-1")))
for c in H.pmap(vectors, range(chk.n(900, 20000))):
    if c is None:
        continue
    i, variant, how, cmd, want, got, rc, res = c
    chk.saw(repr(cmd) + how)
    chk.count("vectors:" + how)
    chk.count("bytes_compared", len(want))
    m = res.monitor()
    if m or res.timeout or got != want or res.rc != (255 if how == "prompt" else rc):
        k = 0
        while k < min(len(got), len(want)) and got[k] == want[k]:
            k += 1
        chk.violation("ARGV or ENV (%s): %s" % (how, m or ("hang" if res.timeout else "differ")),
                      "%s %r\nstatus %s, expected %s; first difference at %d\n-- expected --\n%r\n-- got --\n%r\n%s" % (
                          variant, cmd[:6], res.rc, rc, k, want[max(0, k - 100):k + 300], got[max(0, k - 100):k + 300],
                          res.err[-1500:].decode("latin-1")))
    if chk.too_many():
        break


# signals: SIGTERM and SIGQUIT let the expression being evaluated finish and end the session; SIGPIPE does nothing
def signalled(i):
    r = chk.rng("signal", i)
    how = r.choice(["prompt", "prompt", "-e"])
    variant = ("asan", "rel")[i % 2]
    n = r.choice([1, 2, 4])
    stop_at = r.randrange(n)
    sigs = [r.choice([signal.SIGTERM, signal.SIGQUIT]) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.25:
        sigs = [signal.SIGPIPE]
    stops = sigs != [signal.SIGPIPE]
    exprs, want, last = [], b"", None
    for k in range(n):
        val = r.choice([("%d" % k, b"%d" % k), ("NIL", b"NIL"), ("(list %d 2)" % k, b"(%d 2)" % k), ("(f %d)" % k, b"%d" % (k + 1))])
        exprs.append("(prog (prinl \"@R%d@\") (in NIL (readline)) (prinl \"after%d\") %s)" % (k, k, val[0]))
        if not stops or k <= stop_at:
            want += b"@R%d@\nafter%d\n" % (k, k) + (b"> " + val[1] + b"\n" if how == "prompt" else b"")
            last = val[1]
    head = "(load 'std 'io 'math) (def f (x) (+ x 1)) T"
    stay = not stops and how == "prompt"        # the end of the input ends the session: 255
    rc = 255 if stay or last == b"NIL" else 0
    err, res = b"", None
    with H.Scratch() as d:
        p = I.Proc(DEST[variant], ["-d"] if how == "prompt" else ["-d", "-e", head + " " + " ".join(exprs)], d, limit=40)
        try:
            if how == "prompt":
                p.send(head.encode() + b"\n")
            for k, e in enumerate(exprs):
                if how == "prompt":
                    p.send(e.encode() + b"\n")
                p.until(b"@R%d@\n" % k)
                if k == stop_at:
                    for g in sigs:
                        p.p.send_signal(g)
                p.send(b"go\n")
                p.until(b"after%d\n" % k)      # what is sent before that could be read with the line
                if stops and k == stop_at:
                    break
            if stops and how == "prompt":       # it ends by itself
                deadline = time.time() + 20
                while True:
                    p.more(deadline)
        except I.Gone as e:
            if str(e) != "ended":
                err = b"-- " + str(e).encode()
                res = p.end(kill=True)
        if res is None:
            res = p.end()
    got = res.out.replace(b": ", b"")
    got = got[max(0, got.find(b"@R0@")):] + err
    return variant, how, exprs, sigs, want, got, rc, res


for variant, how, exprs, sigs, want, got, rc, res in H.pmap(signalled, range(chk.n(150, 3000))):
    chk.saw("signals %r %s %r %s" % (sigs, how, exprs, variant))
    chk.count("signals:%s" % "+".join(g.name for g in sigs))
    m = res.monitor()
    if m or res.timeout or got != want or res.rc != rc:
        chk.violation("signal: %s" % (m or ("output" if got != want else "status")),
                      "%s %s %s\nstatus %s, expected %s\n-- expected --\n%s\n-- got --\n%s\n%s" % (
                          variant, how, sigs, res.rc, rc, want.decode(), got.decode("latin-1"),
                          res.err[-1500:].decode("latin-1")), "\n".join(exprs))
    if chk.too_many():
        break


N = chk.n(2600, 60000)
made = H.fork_map(lambda k: M.run_threaded(lambda: [(i, make(i)) for i in range(k, N, H.JOBS)]), range(H.JOBS))
made = sorted((c for part in made for c in part), key=lambda c: c[0])
for c in H.pmap(program, [c for c in made if c[1] is not None]):
    if c is None:
        chk.count("dropped")
        continue
    i, variant, how, flags, body, want, got, rc, res = c
    chk.saw(how + body)
    chk.count("programs:" + how)
    chk.count("status:%d" % rc)
    if i in (3, 9):
        chk.sample(body[:900])
    m = res.monitor()
    if m or res.timeout or got != want or res.rc != rc:
        k = 0
        while k < min(len(got), len(want)) and got[k] == want[k]:
            k += 1
        chk.violation("program as %s: %s" % (how, m or ("hang" if res.timeout else "output" if got != want else "status")),
                      "variant %s flags %r\nstatus %s, expected %s; first difference at %d\n-- expected --\n%s\n-- got --\n%s\n"
                      "%s" % (variant, flags, res.rc, rc, k, want[max(0, k - 300):k + 600].decode("latin-1"),
                              got[max(0, k - 300):k + 600].decode("latin-1"), res.err[-1500:].decode("latin-1")), body)
    if chk.too_many():
        break
chk.finish(minimum=chk.n(1000, 10000))
