#!/usr/bin/env python3
"""C13: in and out: innermost channel, every byte in order, nothing left open."""
import os
import re
import resource
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import data as X
import harness as H
import model as M

chk = H.Check("C13")
chk.rule = ("generated programs of nested in/out over files (new, existing, in sub-directories), pipes, descriptors, "
            "standard streams and channels that cannot be opened, with reads and writes of all sizes between; a "
            "simulation of the channels gives the bytes of every file, stdout and stderr; descriptor numbers handed "
            "out before and after are compared to find descriptors left open; distinct programs counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
NOFILE = max(110, min(900, resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 20))
HEAD = "(load 'std 'io 'unix 'math 'logic)\n"


class Src:
    """A file being read: lines, position."""

    def __init__(self, data):
        self.lines = data.split(b"\n")
        if self.lines[-1] == b"":
            self.lines.pop()
        self.pos = 0

    def line(self):
        if self.pos >= len(self.lines):
            return None
        self.pos += 1
        return self.lines[self.pos - 1]


def datum(r):
    """One expression whose text fits one line."""
    while True:
        x = X.datum(r, r.choice([0, 1, 2]))
        t = M.show(x)
        if b"\n" not in t and not odd(x):
            return x


def odd(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, M.Pair):
            st += [y.car, y.cdr]
        elif X.unlexable(y):
            return True
    return False


class Prog:
    def __init__(self, r):
        self.r = r
        self.files = {}         # the files there are: path -> bytes
        self.data = {}          # files of expressions: path -> list of data
        self.streams = {"1": bytearray(), "2": bytearray()}
        self.outs = ["1"]
        self.ins = []
        self.npipe = 0
        self.opens = 0
        self.failed = 0
        self.written = 0
        self.budget = r.choice([6, 15, 40])
        for k in range(r.choice([1, 2, 4])):
            self.files[r.choice(["a%d", "d/b%d"]) % k] = bytearray(self.lines())
        for k in range(2):
            p = "x%d" % k
            ds = [datum(r) for _ in range(r.choice([0, 1, 3, 8]))]
            self.data[p] = ds
            self.files[p] = bytearray(b"".join(M.show(d) + b"\n" for d in ds))
        self.start = {k: bytes(v) for k, v in self.files.items()}

    def lines(self):
        r = self.r
        out = b""
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            n = r.choice([0, 0, 1, 5, 30, 200, 1023, 1024, 1025, 4096])
            if r.random() < 0.5:
                out += bytes(r.choice(b"abc def()\"'#^") for _ in range(n)) + b"\n"
            else:
                out += bytes(r.choice([b for b in range(256) if b != 10]) for _ in range(n)) + b"\n"
        if r.random() < 0.3 and out:
            out = out[:-1]
        return out

    # -- the simulation
    def write(self, b):
        self.written += len(b)
        t = self.outs[-1]
        (self.streams[t] if t in self.streams else self.files[t]).extend(b)

    # -- the generator: each returns (text, value) where value is the text print would give or None if unknown
    def stmt(self, d):
        r = self.r
        self.budget -= 1
        x = r.random()
        if d > 0 and self.budget > 0:
            if x < 0.28:
                return self.out(d)
            if x < 0.5:
                return self.inp(d)
            if x < 0.56:
                return self.failing(d)
            if x < 0.62:
                return self.pipe()
            if x < 0.68:
                return self.shown(d)
        if x < 0.85 or not self.ins:
            return self.put()
        return self.get()

    def body(self, d):
        return [self.stmt(d - 1) for _ in range(self.r.choice([0, 1, 1, 2, 3, 4]))]

    def join(self, parts):
        return " ".join(t for t, _ in parts), (parts[-1][1] if parts else M.NIL)

    def put(self):
        r = self.r
        k = r.randrange(6)
        n = r.choice([1, 2, 5, 40, 300, 1024, 3000])
        s = bytes(r.choice(b"abcdefgh \x01\xff#()'") for _ in range(n))
        st = '"%s"' % s.decode("latin-1")
        v = M.string(s)
        if k == 0:
            self.write(s)
            return "(prin %s)" % st, v
        if k == 1:
            self.write(s + b"\n")
            return "(prinl %s)" % st, v
        x = datum(r)
        q = "(car '(%s))" % M.show(x).decode("latin-1")
        if k == 2:
            self.write(M.show(x))
            return "(print %s)" % q, x
        if k == 3:
            self.write(M.show(x) + b" 7\n")
            return "(printl %s 7)" % q, 7
        if k == 4:
            self.write(M.plain(x) + b"!" + b"\n")
            return '(prinl %s "!")' % q, M.string(b"!")
        self.write(b"\n")
        return "(prinl)", M.NIL

    def get(self):
        r = self.r
        src, kind = self.ins[-1]
        if kind == "data":
            if src.pos < len(src.items):
                v = src.items[src.pos]
                src.pos += 1
            else:
                v = M.NIL
            self.write(M.show(v) + b"\n")
            return "(printl (read))", v
        ln = src.line()
        v = M.sym("EOF") if ln is None else M.string(ln)
        if r.random() < 0.5:
            self.write(M.plain(v) + b"\n")
            return "(prinl (readline))", v
        self.write(M.show(v) + b"\n")
        return "(printl (readline))", v

    def out(self, d):
        r = self.r
        self.opens += 1
        t = r.random()
        if t < 0.6:
            name = r.choice([f for f in self.files if f not in self.busy()] + ["n%d" % r.randrange(4), "d/m%d" % r.randrange(3)])
            if name in self.busy():
                name = "n9"
            if name in self.busy():
                return self.put()
            chan = '"%s"' % name
            if r.random() < 0.1:
                chan = '"\x02/%s"' % name         # an absolute path
            elif r.random() < 0.1:
                chan = '"./%s"' % name
        elif t < 0.75:
            name, chan = "1", r.choice(["NIL", "1"])
        elif t < 0.85:
            name, chan = "2", "2"
        else:
            name = r.choice(self.outs)
            if name in ("1", "2"):
                chan = name
            else:
                chan = '"%s"' % name
        if chan == '"%s"' % name and r.random() < 0.08:
            n = r.choice(LONG)
            chan = '"%s%d|%s"' % (r.choice("\x03\x04"), n, name)
            if n > 0:
                return self.toolong("out", chan)
        if name not in self.streams:
            self.files.setdefault(name, bytearray())
        self.outs.append(name)
        body, v = self.join(self.body(d))
        self.outs.pop()
        return "(out %s %s)" % (chan, body), v

    def busy(self):
        """Files being read (their size must not change) or holding expressions."""
        return set(self.data) | {s.name for s, _ in self.ins if hasattr(s, "name")}

    def inp(self, d):
        r = self.r
        self.opens += 1
        names = [f for f in self.files if f not in self.outs]
        if not names:
            return self.put()
        name = r.choice(names)
        if name in self.data:
            src = Src(b"")
            src.items = self.data[name]
            kind = "data"
        else:
            src = Src(bytes(self.files[name]))
            kind = "lines"
        src.name = name
        chan = '"%s"' % name
        if r.random() < 0.1:
            chan = '"\x02/%s"' % name
        elif r.random() < 0.08:
            n = r.choice(LONG)
            chan = '"%s%d|%s"' % (r.choice("\x03\x04"), n, name)
            if n > 0:
                return self.toolong("in", chan)
        self.ins.append((src, kind))
        parts = []
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            parts.append(self.get() if r.random() < 0.6 else self.stmt(d - 1))
        body, v = self.join(parts)
        self.ins.pop()
        return "(in %s %s)" % (chan, body), v

    def toolong(self, form, chan):
        """A path longer than the longest there is: refused, not cut."""
        self.failed += 1
        self.refused_long = getattr(self, "refused_long", 0) + 1
        return '(%s %s (prinl "never"))' % (form, chan), M.NIL

    def failing(self, d):
        """A channel that cannot be opened: no effect, NIL."""
        self.failed += 1
        r = self.r
        form = r.choice(["in", "out"])
        if r.random() < 0.25:
            # the wrong end of a pipe
            return ('((\\ (pz) ((\\ (rz) (close (car pz)) (close (cdr pz)) rz) (%s (%s pz) (prinl "never")))) (pipe))' %
                    (form, "cdr" if form == "in" else "car")), M.NIL
        chan = r.choice(['"nodir/x"', "'sym", "T", "999", "'(1 2)", "^a", '"nodir/../y"'] +
                        (['"d"'] if form == "out" else ['"missing"', '"a0/b"']))
        return '(%s %s (prinl "never") (out "never" (prinl 1)))' % (form, chan), M.NIL

    def pipe(self):
        """Through a pipe, into it and out of it, by descriptor."""
        r = self.r
        k = self.npipe
        self.npipe += 1
        body = ["(setq p%d (pipe))" % k]
        wr, rd = "(cdr p%d)" % k, "(car p%d)" % k
        drop = [rd]
        if r.random() < 0.3:
            # under another, large, number
            n = r.randrange(100, NOFILE)
            if r.random() < 0.5:
                body.append("(dup %s %d)" % (wr, n))
                body.append("(close %s)" % wr)
                wr = str(n)
            else:
                body.append("(dup %s %d)" % (rd, n))
                rd = str(n)
                drop.append(rd)
        rounds = r.choice([1, 1, 2, 3])
        for q in range(rounds):
            self.opens += 2
            ls = [bytes(r.choice(b"abcxyz ") for _ in range(r.choice([1, 3, 100, 2000])))
                  for _ in range(r.choice([1, 2, 5]))]
            # the same descriptor is written by one form or by several
            forms, cur = [], []
            for l in ls:
                cur.append('(prinl "%s")' % l.decode())
                if r.random() < 0.4:
                    forms.append("(out %s %s)" % (wr, " ".join(cur)))
                    cur = []
            if cur:
                forms.append("(out %s %s)" % (wr, " ".join(cur)))
            body += forms
            if q == rounds - 1:
                body.append("(close %s)" % wr)
            for l in ls:
                self.write(l + b"\n")
            body.append("(in %s %s%s)" % (rd, "(prinl (readline)) " * len(ls),
                                          "(prinl (readline))" if q == rounds - 1 else ""))
        self.write(b"EOF\n")
        body.append("(close %s)" % " ".join(drop))
        return "(prog %s 5)" % " ".join(body), 5

    def shown(self, d):
        """The value of a form, or a form inside a function."""
        r = self.r
        t, v = r.choice([self.out, self.inp, self.failing])(d)
        if r.random() < 0.5:
            self.write(M.show(v) + b"\n")
            return "(printl %s)" % t, v
        return "((\\ (q) %s) 1)" % t, v


LONG = [-300, -2, -1, 0, 0, 1, 1, 2, 3, 20, 600]     # beyond the longest path, in bytes


def lengthen(m, d, where):
    """Slashes which make the absolute path as long as asked for."""
    form, up, kind, n, name = m.group(1), m.group(2) or "", m.group(3), int(m.group(4)), m.group(5)
    if kind == "\x04":
        name = d + "/" + name
        return '(%s "%s%s"' % (form, "/" * (4095 + n - len(name)), name)
    base = len(d) + 1 + (2 if form == "in" and where == "s" else 0)
    k = 4095 + n - base - len(up) - 2 - len(name)
    return '(%s "%s./%s%s"' % (form, up, "/" * k, name)


def one(i):
    r = chk.rng(i)
    p = Prog(r)
    parts = []
    while p.budget > 0:
        parts.append(p.stmt(r.choice([1, 2, 3, 5]))[0])
    # the numbers of the descriptors that are free: those of a few pipes opened together
    fd = "(list %s)" % " ".join(["(setq -q%d- (pipe))" % k for k in range(8)])
    fd = "((\\ (p) %s p) %s)" % (" ".join("(close (car -q%d-)) (close (cdr -q%d-))" % (k, k) for k in range(8)), fd)
    fds = "(setq -f- %s)" % fd
    variant = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        text = HEAD + fds + "\n" + "\n".join(parts) + "\n(printl (= -f- %s))\nT\n" % fd
        text = text.replace("\x02", d)
        os.mkdir(os.path.join(d, "d"))
        for f, b in p.start.items():
            open(os.path.join(d, f), "wb").write(b)
        os.mkdir(os.path.join(d, "s"))
        where = r.choice([".", ".", "s"])
        # files are read relative to the script and written relative to where it is run
        if where == "s":
            text = text.replace('(in "', '(in "../').replace('(in "../' + d, '(in "' + d)
        text = re.sub(r'\((in|out) "(\.\./)?([\x03\x04])(-?\d+)\|([^"]*)"', lambda m: lengthen(m, d, where), text)
        open(os.path.join(d, where, "t.l"), "wb").write(text.encode("latin-1"))
        res = H.run(DEST[variant], ["-d", os.path.join(where, "t.l")], cwd=d, timeout=60)
        got = {}
        for dp, _, fs in os.walk(d):
            for f in fs:
                q = os.path.relpath(os.path.join(dp, f), d)
                if os.path.basename(q) != "t.l":
                    got[q] = open(os.path.join(dp, f), "rb").read()
    return variant, p, text, got, res


for variant, p, text, got, res in H.pmap(one, range(chk.n(1500, 30000))):
    chk.saw(text)
    chk.count("channels_opened", p.opens)
    chk.count("channels_refused", p.failed)
    chk.count("paths_too_long", getattr(p, "refused_long", 0))
    chk.count("bytes_written", p.written)
    chk.count("files_compared", len(p.files))
    want = {k: bytes(v) for k, v in p.files.items()}
    out = bytes(p.streams["1"]) + b"T\n"
    err = bytes(p.streams["2"])
    m = res.monitor()
    bad = []
    gerr = b"".join(l for l in res.err.splitlines(True) if b"Cannot open" not in l and b"full path" not in l)
    if m or res.timeout:
        bad.append(m or "hang")
    else:
        if res.out != out:
            if res.out == out[:-2] + b"NIL\n":
                bad.append("a descriptor is left open")
            else:
                bad.append("stdout differs")
        if err and err not in res.err and not p.failed:
            bad.append("stderr differs")
        if got != want:
            bad.append("files differ")
        if res.rc != 0:
            bad.append("exit status %s" % res.rc)
    if bad:
        k = 0
        while k < min(len(out), len(res.out)) and out[k] == res.out[k]:
            k += 1
        det = "variant %s\n%s\nstdout differs from byte %d of %d\n-- expected --\n%s\n-- got --\n%s\n" % (
            variant, bad, k, len(out), out[max(0, k - 100):k + 300].decode("latin-1"),
            res.out[max(0, k - 100):k + 300].decode("latin-1"))
        for f in sorted(set(want) | set(got)):
            if want.get(f) != got.get(f):
                det += "-- %s expected --\n%r\n-- got --\n%r\n" % (f, want.get(f, b"<none>")[:800], got.get(f, b"<none>")[:800])
        chk.violation(bad[0], det + "-- stderr --\n" + res.err[-1500:].decode("latin-1"), text)


# named pipes: out waits for a reader and in for a writer, and the bytes pass whole and in order
def fifo_peer(path, writes, data, pause, got, stop):
    """Read what comes through the pipe, or write data into it."""
    time.sleep(pause)
    try:
        if not writes:
            fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
            out = b""
            while not stop.is_set():
                try:
                    b = os.read(fd, 65536)
                except BlockingIOError:
                    time.sleep(0.001)
                    continue
                out += b
                if not b and out:
                    break
                if not b:
                    time.sleep(0.001)
            os.close(fd)
            got[path] = out
            return
        while not stop.is_set():
            try:
                fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError:
                time.sleep(0.001)
        else:
            return
        os.set_blocking(fd, True)
        k = 0
        while k < len(data):
            n = max(1, len(data) // 3)
            os.write(fd, data[k:k + n])
            k += n
            time.sleep(pause / 4)
        os.close(fd)
    except OSError as e:
        got[path] = repr(e).encode()


def fifo(i):
    r = chk.rng("fifo", i)
    out, want, ops = [], b"", []
    for k in range(r.choice([1, 2, 4, 6])):
        lines = [bytes(r.choice(b"abc xyz") for _ in range(r.choice([1, 3, 40, 900]))) for _ in range(r.choice([1, 2, 9]))]
        data = b"".join(l + b"\n" for l in lines)
        pause = r.choice([0.0, 0.002, 0.02, 0.05])
        if r.random() < 0.5:
            out.append('(prog (out "p%d" %s) NIL)' % (k, " ".join('(prinl "%s")' % l.decode() for l in lines)))
            ops.append(("p%d" % k, False, data, pause))
        else:
            out.append('(printl (in "p%d" (readlines NIL)))' % k)
            want += M.show(M.from_list([M.string(l) for l in lines])) + b"\n"
            ops.append(("p%d" % k, True, data, pause))
    text = HEAD + "(load \"@lib/run.l\")\n" + "\n".join(out) + "\nT\n"
    with H.Scratch() as d:
        for f, _, _, _ in ops:
            os.mkfifo(os.path.join(d, f))
        with open(os.path.join(d, "t.l"), "w") as fh:
            fh.write(text)
        got, stop = {}, threading.Event()

        def peers():
            for f, w, data, pause in ops:
                fifo_peer(os.path.join(d, f), w, data, pause, got, stop)
        th = threading.Thread(target=peers)
        th.start()
        res = H.run(DEST[("asan", "rel")[i % 2]], ["-d", "t.l"], cwd=d, timeout=30)
        th.join(5)
        stop.set()
        th.join()
        for f, w, data, _ in ops:
            if not w and got.get(os.path.join(d, f)) != data:
                return text, "bytes through %s: expected %r got %r" % (f, data[:300], (got.get(os.path.join(d, f)) or b"")[:300]), res
    if res.monitor() or res.timeout:
        return text, res.monitor() or "hang", res
    if res.out != want + b"T\n" and res.out != want:
        return text, "stdout: expected %r got %r" % (want[:500], res.out[:500]), res
    return text, None if res.rc == 0 else "exit status %s" % res.rc, res


for text, bad, res in H.pmap(fifo, range(chk.n(120, 3000))):
    chk.saw(text)
    chk.count("named_pipe_programs")
    if bad:
        chk.violation("named pipe: " + bad.split(":")[0], bad + "\n-- stderr --\n" + res.err[-1500:].decode("latin-1"), text)
    if chk.too_many():
        break
chk.finish(minimum=chk.n(400, 5000))
