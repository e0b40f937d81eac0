#!/usr/bin/env python3
"""C16: processes, pipes, sockets and select deliver every byte and event once."""
import fcntl
import os
import signal
import socket
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import data as X
import harness as H
import interact as I
import model as M

chk = H.Check("C16")
chk.rule = ("generated programs with real peers: (A) children that write, read, exit and die with any sizes and pauses "
            "through pipes, dup and close; (B) a select loop in lockstep with a peer that makes a chosen set of "
            "descriptors ready and knows each callback's answer; (C) TCP servers and clients on the loopback with data "
            "in pieces; (D) the HTTP client and server. The peers know every byte and event to expect; /proc/<pid>/fd "
            "and the children are compared before and after; distinct programs counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}
PEER = os.path.join(DEST["asan"], "bin", "peer")
if not os.path.exists(PEER):
    try:
        B.run(["gcc", "-O1", "-w", "-o", PEER + ".%d" % os.getpid(), os.path.join(B.VERIF, "c", "peer.c")])
    except B.BuildError as e:
        print("BUILD-ERROR peer: %s" % e)
        sys.exit(2)
    os.rename(PEER + ".%d" % os.getpid(), PEER)
HEAD = """(load 'std 'logic 'math 'io 'unix "@lib/run.l")
(setq S 1)
(in NIL (prinl "@S@") (readline))
"""
FOOT = """
(in NIL (prinl "@E@") (readline))
T
"""
RUNS = [0]
HOSTS = ["127.0.0.1"]
try:
    if socket.gethostbyname("localhost") == "127.0.0.1":
        HOSTS.append("localhost")
except OSError:
    pass


def lit(s):
    """A string literal for bytes without quotes, backslashes and newlines."""
    return '"%s"' % s.decode("latin-1") if s else "NIL"


def content(r, big=True):
    """Bytes and the lines they make."""
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 5, 20] + ([60] if big else []))):
        n = r.choice([0, 0, 1, 3, 10, 80, 500] + ([1023, 1024, 1025, 4095, 4096, 9000, 30000] if big and r.random() < 0.4
                                                  else []))
        pool = r.choice([b"abcdefg hi", bytes(b for b in range(1, 256) if b != 10)])
        out.append(bytes(r.choice(pool) for _ in range(n)))
    b = b"\n".join(out) + b"\n" if out else b""
    if out and out[-1] and r.random() < 0.3:
        b = b[:-1]
    return b, out


def shown(lines):
    return M.show(M.from_list([M.string(x) if x else M.NIL for x in lines]))


class Case:
    """A program, what it must print between the markers, and its peers."""

    def __init__(self, i, kind):
        self.i, self.kind = i, kind
        self.r = chk.rng(kind, i)
        self.text = []
        self.want = b""
        self.files = {}
        self.after = {}
        self.dirs, self.links = [], {}
        self.n = 0

    def add(self, t, out=b""):
        self.text.append(t)
        self.want += out

    def show(self, t, val):
        self.add("(printl %s)" % t, (val if isinstance(val, bytes) else M.show(val)) + b"\n")

    def fresh(self):
        self.n += 1
        return self.n


# ---------------------------------------------------------------- A: processes and pipes

def code(r):
    """(argument of the peer, what wait gives)"""
    if r.random() < 0.2:
        s = r.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGUSR1])
        return 1000 + s, M.NIL
    c = r.choice([0, 0, 1, 2, 3, 42, 127, 128, 254, 255])
    return c, c


def emit(c, big=True):
    r = c.r
    k = c.fresh()
    b, lines = content(r, big)
    c.files["f%d" % k] = b
    arg, val = code(r)
    pause = r.choice([0, 0, 300, 2000])
    if len(b) > 20000:
        pause = min(pause, 300)
    args = '\'("emit" "f%d" "%d" "%d" "%d")' % (k, arg, r.randrange(1000), pause)
    return args, lines, val


def spawn(c, k, args, fd=1):
    """Fork the child of pipe k; its end of the pipe is descriptor fd."""
    mine, its = ("car", "cdr") if fd == 1 else ("cdr", "car")
    # one expression: the child must not read the script any further
    c.add("(setq c%d (let ((x . (fork))) (if (= x 0) (prog (dup (%s p%d) %d) (close (car p%d) (cdr p%d)) "
          "(exec \"%s\" %s NIL)) x)))" % (k, its, k, fd, k, k, PEER, args))
    c.show("(close (%s p%d))" % (its, k), M.T)
    return "(%s p%d)" % (mine, k)


def a_run(c):
    args, lines, val = emit(c)
    c.show('(run "%s" %s NIL)' % (PEER, args), b"(" + M.show(val) + (b" " + shown(lines)[1:] if lines else b")"))


def a_env(c):
    r = c.r
    args = [bytes(r.choice(b"ab xyz*$&;|=~") for _ in range(r.choice([1, 1, 5, 30, 1000] + ([4095, 4097, 6000] if r.random() < 0.2
                                                                           else []))))
            for _ in range(r.choice([0, 1, 2, 6, 20, 62, 63, 64, 118]))]
    if len(args) > 50:
        args = [a[:20] for a in args]
    env = []
    for k in range(r.choice([0, 1, 3, 20, 64, 118])):
        env.append((b"K%d" % k, bytes(r.choice(b"ab=x/ *") for _ in range(r.choice([1, 1, 5, 30, 300] + [5000] * (k == 1))))))
    want = [b"a" + b"args".hex().encode()] + [b"a" + a.hex().encode() for a in args]
    if env:
        want += [b"e" + (k + b"=" + v).hex().encode() for k, v in env]
    t = '(run "%s" \'("args" %s) %s)' % (
        PEER, " ".join(lit(a) for a in args),
        "'(%s)" % " ".join("(%s . %s)" % (lit(k), lit(v)) for k, v in env) if env else "NIL")
    if env:
        c.show(t, b"(0 " + shown(want)[1:])
    else:       # the environment is inherited: look at the arguments only
        n = len(want)
        c.add("(setq rr %s)" % t)
        for k, w in enumerate(want):
            c.add("(setq rr (cdr rr))")
            c.show("(car rr)", M.string(w))


def a_children(c):
    r = c.r
    ks = []
    for _ in range(r.choice([1, 2, 4, 7])):
        k = c.fresh()
        args, lines, val = emit(c, big=r.random() < 0.3)
        c.add("(setq p%d (pipe))" % k)
        rd = spawn(c, k, args)
        ks.append((k, rd, lines, val, len(b"\n".join(lines))))
    steps = []
    for k, rd, lines, val, size in ks:
        s = [("read", k, rd, lines), ("wait", k, val)]
        if size < 30000 and r.random() < 0.4:
            s.reverse()
        steps.append(s)
    while any(steps):
        s = r.choice([s for s in steps if s])
        x = s.pop(0)
        if x[0] == "read":
            c.show("(in %s (readlines NIL))" % x[2], shown(x[3]))
            c.show("(close %s)" % x[2], M.T)
        else:
            c.show("(wait c%d)" % x[1], x[2])


def a_sink(c):
    r = c.r
    k = c.fresh()
    cd = r.choice([0, 3, 200])
    c.add("(setq p%d (pipe))" % k)
    wr = spawn(c, k, '\'("sink" "g%d" "%d")' % (k, cd), fd=0)
    got = b""
    for _ in range(r.choice([1, 2, 5])):
        ws = []
        for _ in range(r.choice([0, 1, 3])):
            s = bytes(r.choice(b"abc xyz\xfe\x01") for _ in range(r.choice([1, 10, 1024, 4000])))
            f = r.choice(["prin", "prinl"])
            m = r.choice([1, 1, 8, 20])
            ws.append("(<- 'S %s) (%s%s)" % (lit(s), f, " S" * m))
            got += s * m + (b"\n" if f == "prinl" else b"")
        c.add("(prog (out %s %s) NIL)" % (wr, " ".join(ws)))
    c.show("(close %s)" % wr, M.T)
    c.show("(wait c%d)" % k, cd)
    c.after["g%d" % k] = got


def a_dup(c):
    r = c.r
    k = c.fresh()
    c.add("(setq p%d (pipe))" % k)
    ends = ["(cdr p%d)" % k]
    for j in range(r.choice([1, 2, 3])):
        if r.random() < 0.5:
            c.add("(setq d%d-%d (dup %s))" % (k, j, r.choice(ends)))
            ends.append("d%d-%d" % (k, j))
        else:
            n = 60 + 10 * (k % 8) + j
            c.show("(dup %s %d)" % (r.choice(ends), n), n)
            ends.append(str(n))
    got = b""
    r.shuffle(ends)
    while ends:
        e = ends[-1]
        if r.random() < 0.6:
            s = bytes(r.choice(b"abc ") for _ in range(r.choice([1, 10, 200])))
            e = r.choice(ends)
            c.add("(prog (out %s (prinl %s)) NIL)" % (e, lit(s)))
            got += s + b"\n"
        else:
            n = r.choice([1, 1, 2, 3])
            es = [ends.pop() for _ in range(min(n, len(ends)))]
            ok = r.random() < 0.6
            if not ok:              # one of them is not open; the others are closed all the same
                es.insert(r.randrange(len(es) + 1), r.choice(["999", "-1", "1000000"]))
            c.show("(close %s)" % " ".join(es), M.T if ok else M.NIL)
    c.show("(in (car p%d) (readlines NIL))" % k, shown(got.split(b"\n")[:-1]))
    c.show("(close (car p%d))" % k, M.T)
    c.show("(close (car p%d))" % k, M.NIL)


def a_dup2(c):
    """dup over an open descriptor closes it: its peer sees the end of the data."""
    k, j = c.fresh(), c.fresh()
    c.add("(setq p%d (pipe)) (setq p%d (pipe))" % (k, j))
    c.add("(prog (out (cdr p%d) (prinl \"one\")) NIL)" % k)
    c.add("(prog (dup (cdr p%d) (cdr p%d)) NIL)" % (j, k))
    c.add("(prog (out (cdr p%d) (prinl \"two\")) NIL)" % k)
    c.show("(in (car p%d) (readlines NIL))" % k, shown([b"one"]))
    c.show("(close (cdr p%d) (cdr p%d))" % (j, k), M.T)
    c.show("(in (car p%d) (readlines NIL))" % j, shown([b"two"]))
    c.show("(close (car p%d) (car p%d))" % (j, k), M.T)


def a_broken(c):
    """What is written for a reader that is gone is lost, and nothing else."""
    k, j = c.fresh(), c.fresh()
    c.add("(setq p%d (pipe))" % k)
    if c.r.random() < 0.5:
        c.show("(close (car p%d))" % k, M.T)
    else:           # the reader is a child that ends without reading
        c.add("(setq c%d (let ((x . (fork))) (if (= x 0) (prog (dup (car p%d) 0) (close (car p%d) (cdr p%d)) "
              "(exec \"%s\" '(\"args\") NIL)) x)))" % (j, k, k, k, "/bin/true"))
        c.show("(close (car p%d))" % k, M.T)
        c.show("(wait c%d)" % j, 0)
    for _ in range(c.r.choice([1, 2])):
        c.add("(<- 'S \"%s\")" % ("x" * c.r.choice([1, 10, 200])))
        c.show("(out (cdr p%d) (prinl%s) 7)" % (k, " S" * c.r.choice([1, 30])), 7)
    c.show("(close (cdr p%d))" % k, M.T)


def a_unlink(c):
    k = c.fresh()
    c.files["u%d" % k] = b"x"
    c.show('(unlink "u%d")' % k, M.T)
    c.show('(unlink "u%d")' % k, M.NIL)
    c.after["u%d" % k] = None
    for j in range(c.r.choice([0, 0, 1, 2])):       # names about as long as they may be
        n = c.r.choice([4093, 4094, 4095, 4096, 4097, 4500])
        f = "v%d-%d" % (k, j)
        c.files[f] = b"y"
        good = n <= 4095
        pad = min(n, 4095) - len(f)
        t = ("./" * (pad // 2) + ("/" if pad % 2 else "")) + f + "z" * (n - min(n, 4095))
        c.show('(unlink "%s")' % t, M.T if good else M.NIL)
        c.after[f] = None if good else b"y"
    if c.r.random() < 0.4:      # only files are removed
        f = "d%d" % k
        c.files[f + "/x"] = b"z"
        c.show('(unlink "%s%s")' % (f, c.r.choice(["", "/", "/."])), M.NIL)
        c.show('(unlink "%s/nosuch")' % f, M.NIL)
        c.show('(unlink "%s/x")' % f, M.T)
        c.after[f + "/x"] = None
        c.show('(unlink "%s%s")' % (f, c.r.choice(["", "/", "/."])), M.NIL)
        c.dirs.append(f)
    if c.r.random() < 0.3:      # the link and not what it leads to
        f = "t%d" % k
        c.files[f] = c.after[f] = b"z"
        c.links["l%d" % k] = c.r.choice([f, "./" + f])
        c.links["m%d" % k] = "nowhere"
        c.show('(unlink "l%d")' % k, M.T)
        c.show('(unlink "m%d")' % k, M.T)


def a_noexec(c):
    k = c.fresh()
    c.add("(setq p%d (pipe))" % k)
    c.add("(setq c%d (let ((x . (fork))) (if (= x 0) (prog (dup (cdr p%d) 1) (close (car p%d) (cdr p%d)) "
          "(exec \"%s\" NIL NIL)) x)))" % (k, k, k, k, c.r.choice(["/nonexistent/x", "no/such"])))
    c.show("(close (cdr p%d))" % k, M.T)
    c.show("(in (car p%d) (readlines NIL))" % k, shown([b"No such file or directory"]))
    c.show("(wait c%d)" % k, 2)
    c.show("(close (car p%d))" % k, M.T)


def a_longexec(c):
    """The path of a program, about as long as it may be; cut, a longer one would name a program, too."""
    k = c.fresh()
    n = c.r.choice([4094, 4095, 4096, 4097, 4098, 5000])
    p = "/" * (min(n, c.r.choice([4095, 4096])) - len(PEER)) + PEER
    p += "z" * (n - len(p))
    c.add("(setq p%d (pipe))" % k)
    c.add("(setq c%d (let ((x . (fork))) (if (= x 0) (prog (dup (cdr p%d) 1) (close (car p%d) (cdr p%d)) "
          "(exec \"%s\" '(\"args\" \"q\") NIL)) x)))" % (k, k, k, k, p))
    c.show("(close (cdr p%d))" % k, M.T)
    if n <= 4095:
        c.add("(setq l%d (in (car p%d) (readlines NIL)))" % (k, k))
        c.show("(list (car l%d) (car (cdr l%d)))" % (k, k), shown([b"a" + x.hex().encode() for x in (b"args", b"q")]))
    else:
        c.show("(in (car p%d) (readlines NIL))" % k, shown([b"File name too long"]))
    c.show("(wait c%d)" % k, 0 if n <= 4095 else 36)
    c.show("(close (car p%d))" % k, M.T)


def make_a(i):
    c = Case(i, "A")
    fs = [a_run, a_run, a_env, a_children, a_children, a_sink, a_dup, a_dup2, a_unlink, a_noexec, a_longexec, a_broken]
    for _ in range(c.r.choice([1, 3, 6])):
        f = c.r.choice(fs)
        chk.count("A:" + f.__name__[2:])
        f(c)
    if c.r.random() < 0.3:      # the script is longer than a buffer
        c.text.insert(1, "# " + "-" * 3000)
        c.text.append("# " + "-" * 9000)
    return c


def run_a(c):
    v = ("asan", "rel")[c.i % 2]
    with H.Scratch() as d:
        for f, b in c.files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "wb") as fh:
                fh.write(b)
        for f, t in c.links.items():
            os.symlink(t, os.path.join(d, f))
        with open(os.path.join(d, "t.l"), "wb") as fh:
            fh.write((HEAD + "\n".join(c.text) + FOOT).encode("latin-1"))
        p = I.Proc(DEST[v], ["-d", "t.l"], d, limit=40)
        bad = None
        try:
            p.until(b"@S@\n")
            fds = p.fds()
            p.send(b"\n")
            got = p.until(b"@E@\n")
            if got != c.want:
                bad = differ(c.want, got)
            fds2 = p.fds()
            if fds2 != fds and not bad:
                bad = "descriptors before %s and after %s" % (fds, fds2)
            if p.children() and not bad:
                bad = "children left: %s" % p.children()
            p.send(b"\n")
            for f, b in c.after.items():
                try:
                    with open(os.path.join(d, f), "rb") as fh:
                        g = fh.read()
                except OSError:
                    g = None
                if g != b and not bad:
                    bad = "file %s: %s" % (f, "not there" if g is None else "there" if b is None else differ(b, g))
            for f in c.dirs:
                if not os.path.isdir(os.path.join(d, f)) and not bad:
                    bad = "directory %s is gone" % f
            for f in c.links:
                if os.path.lexists(os.path.join(d, f)) and not bad:
                    bad = "link %s is still there" % f
            res = p.end()
        except I.Gone as e:
            bad = "%s; printed:\n%s" % (e, differ(c.want, p.buf))
            res = p.end(kill=str(e) != "ended")
    return c, v, bad, res


def differ(want, got):
    k = 0
    while k < min(len(want), len(got)) and want[k] == got[k]:
        k += 1
    return "at byte %d: expected %r got %r (%d and %d bytes)" % (k, want[max(0, k - 60):k + 200],
                                                                   got[max(0, k - 60):k + 200], len(want), len(got))


def verdict(c, v, bad, res):
    RUNS[0] += 1
    text = "\n".join(c.text)
    chk.saw(text + repr(sorted(c.files.items()))[:100000])
    chk.count("runs:" + c.kind)
    chk.count("bytes_expected", len(c.want))
    m = res.monitor() if not (bad and res.rc == -9) else None
    if m:
        chk.violation(c.kind + ": " + m, "variant %s\n%s\n%s" % (v, bad, res.err[-3000:].decode("latin-1")), text)
    elif bad:
        chk.violation(c.kind + ": " + bad.split(":")[0][:60], "case %d variant %s\n%s\nstderr %s" % (
            c.i, v, bad, res.err[-2000:].decode("latin-1")), text)
    elif res.timeout:
        chk.violation(c.kind + ": does not end", "variant " + v, text)
    elif res.rc != 0 or (res.stats and res.live() != 0):
        chk.violation(c.kind + ": cells not released (rc=%s live=%s)" % (res.rc, res.live()), "variant " + v, text)


# ---------------------------------------------------------------- B: select in lockstep

SELECT = """(load 'std 'logic 'math 'io 'unix)
(def on-read (fd)
  (if (= fd SRV)
    (let ((a . (accept fd)))
      (printl 'A (car a) (car (cdr a)))
      (car a))
    (let ((l . (in fd (readline))))
      (printl 'R fd l)
      (cond (car l)
        ((= ^k) . T)
        ((= ^n) . fd)
        ((= ^a) . (let ((s . (car SPARE))) (<- 'SPARE (cdr SPARE)) s))
        (_ . NIL)))))
(def on-error (fd) (printl 'E fd) (prog NIL))
(in NIL (prinl "@S@") (readline))
(setq more T)
(while more
  (prinl "@")
  (let ((cmd . (in NIL (readline))))
    (if (= cmd "stop")
      (<- 'more NIL)
      (let (((r e) . SELECT3))
        (printl r)
        (printl e)
        (<- 'FDS (if (= cmd "e") e r))))))
(in NIL (prinl "@E@") (readline))
T
"""


class Peer:
    """Our end of a descriptor of the interpreter."""

    def __init__(self, sock, fd):
        self.sock, self.fd = sock, fd
        self.tcp = sock.family == socket.AF_INET

    def closed(self, wait):
        """Did the interpreter close its end?"""
        self.sock.settimeout(wait)
        try:
            return self.sock.recv(10) == b""
        except (ConnectionError, BrokenPipeError):
            return True
        except (socket.timeout, BlockingIOError):
            return False


def settled(s):
    """The bytes sent on a TCP socket have reached the peer."""
    for _ in range(400):
        if struct.unpack("i", fcntl.ioctl(s.fileno(), 0x5411, b"\0\0\0\0"))[0] == 0:
            return
        time.sleep(0.005)


def run_b(i):
    r = chk.rng("B", i)
    v = ("asan", "rel")[i % 2]
    c = Case(i, "B")
    with H.Scratch() as d:
        socks, pass_fds, peers = [], [], {}
        for _ in range(r.choice([1, 2, 4, 8, 20])):
            a, b = socket.socketpair()
            socks += [a, b]
            peers[b.fileno()] = Peer(a, b.fileno())
            pass_fds.append(b.fileno())
        order = list(pass_fds)
        r.shuffle(order)
        k = r.randrange(len(order))
        fds, spare = order[k:], order[:k]
        srv, port = -1, None
        ls = None
        if r.random() < 0.6:
            ls = socket.socket()
            ls.bind(("127.0.0.1", 0))
            ls.listen(16)
            port = ls.getsockname()[1]
            srv = ls.fileno()
            pass_fds.append(srv)
            fds.insert(r.randrange(len(fds) + 1), srv)
        if r.random() < 0.2:
            fds.insert(r.randrange(len(fds) + 1), "NIL")
        if r.random() < 0.2:
            fds.insert(r.randrange(len(fds) + 1), "foo")
        rcb = r.random() < 0.95
        ecb = r.random() < 0.5
        head = "(load '(std <- setq))\n(setq SRV %d)\n(setq FDS '(%s))\n(setq SPARE '(%s NIL))\n" % (
            srv, " ".join(map(str, fds)), " ".join(map(str, spare)))
        text = head + SELECT.replace("SELECT3", r.choice([
            "(select FDS READ ERR)", "(select FDS READ ERR)", "((select FDS) READ ERR)", "((select FDS READ) ERR)",
            "(((select FDS) READ) ERR)", "(let ((f . (select FDS))) (let ((g . (f READ))) (g ERR)))"])).replace("READ", "on-read" if rcb else "NIL", 1).replace(
            "ERR", "on-error" if ecb else "NIL", 1)
        c.text = [text]
        with open(os.path.join(d, "t.l"), "w") as fh:
            fh.write(text)
        p = I.Proc(DEST[v], ["-d", "t.l"], d, limit=40, pass_fds=pass_fds)
        for s in socks[1::2]:
            s.close()
        if ls:
            ls.close()
        bad = None
        log = []
        try:
            p.until(b"@S@\n")
            start = p.fds()
            p.send(b"\n")
            held = [f for f in fds + spare if isinstance(f, int)]
            for rnd in range(r.choice([3, 8, 20])):
                p.until(b"@\n")
                nums = [f for f in fds if isinstance(f, int)]
                if not nums:
                    break
                conn, oob = None, None
                msgs = {}
                x = r.random()
                tcp = [f for f in nums if f != srv and peers[f].tcp]
                if srv in nums and x < 0.3 and rcb:
                    conn = socket.create_connection(("127.0.0.1", port))
                    socks.append(conn)
                elif tcp and x < 0.5 and ecb:
                    oob = r.choice(tcp)
                    peers[oob].sock.send(b"!", socket.MSG_OOB)
                else:
                    cand = [f for f in nums if f != srv]
                    if not cand:
                        break
                    for f in r.sample(cand, r.randrange(1, len(cand) + 1)):
                        m = r.choice("kkknnad") + "".join(r.choice("xyz ") for _ in range(r.choice([0, 3, 50, 900])))
                        if not rcb:
                            m = "k"
                        if m[0] == "a" and sum(1 for x in msgs.values() if x and x[0] == "a") >= len(spare):
                            m = "k"
                        if r.random() < 0.1:
                            peers[f].sock.shutdown(socket.SHUT_WR)
                            msgs[f] = None
                        else:
                            peers[f].sock.send(m.encode() + b"\n")
                            msgs[f] = m
                    for f in msgs:
                        if peers[f].tcp:
                            settled(peers[f].sock)
                    time.sleep(0.002 if any(peers[f].tcp for f in msgs) else 0)
                p.send(b"e\n" if oob is not None else b"r\n")
                # the events to expect, in the order of the list
                want = b""
                rl, el, dropped, added = [], [], [], None
                for f in fds:
                    if not isinstance(f, int):
                        continue
                    if conn is not None and f == srv:
                        want += b"@A"           # checked apart
                        rl.append("new")
                        rl.append(f)
                    elif f in msgs and rcb:
                        m = msgs[f]
                        want += b"R %d %s\n" % (f, b"EOF" if m is None else M.show(M.string(m.encode())))
                        act = "d" if m is None else m[0]
                        chk.count("select:" + ("eof" if m is None else act))
                        if act == "d":
                            dropped.append(f)
                        elif act == "a":
                            rl.append(spare.pop(0))
                            rl.append(f)
                        else:
                            rl.append(f)
                    else:
                        rl.append(f)
                for f in fds:
                    if not isinstance(f, int):
                        continue
                    if oob == f:
                        want += b"E %d\n" % f
                        chk.count("select:error")
                        dropped.append(f)
                    else:
                        el.append(f)
                got = b""
                new = None
                if conn is not None:
                    line = p.until(b"\n")
                    chk.count("select:accept")
                    xs = line.split(b" ", 2)
                    try:
                        new = int(xs[1])
                        exp = b"A %d %s" % (new, M.show(M.string(b"127.0.0.1")))
                    except (ValueError, IndexError):
                        exp = b"A <fd> ..."
                    if line != exp:
                        bad = "accept: expected %r got %r" % (exp, line)
                        break
                    if new in held or (new in start and new not in pass_fds):
                        bad = "accept: descriptor %d is in use" % new
                        break
                    peers[new] = Peer(conn, new)
                    held.append(new)
                    rl = [new if f == "new" else f for f in rl]
                    want = want.replace(b"@A", b"")
                for q in (rl, el):
                    want += (M.show(M.from_list(q)) if q else b"NIL") + b"\n"
                c.want += want
                got = b"".join(p.until(b"\n") + b"\n" for _ in range(want.count(b"\n")))
                log.append((fds, msgs, conn is not None, oob))
                if got != want:
                    bad = "events: expected\n%s\ngot\n%s" % (want.decode("latin-1"), got.decode("latin-1"))
                    break
                fds = el if oob is not None else rl
                for f in dropped:
                    held.remove(f)
                    if not peers[f].closed(10):
                        bad = "dropped descriptor %d is not closed" % f
                for f in held:
                    if f != srv and peers[f].closed(0):
                        bad = "descriptor %d is closed" % f
                if bad:
                    break
                if not rcb:
                    break
            else:
                p.until(b"@\n")
            if not bad:
                if not rcb and log:
                    p.until(b"@\n")
                p.send(b"stop\n")
                p.until(b"@E@\n")
                end = p.fds()
                exp = {f for f in start if f not in pass_fds} | set(held)
                if set(end) != exp:
                    bad = "descriptors: expected %s found %s" % (sorted(exp), sorted(end))
                p.send(b"\n")
                res = p.end()
            else:
                res = p.end(kill=True)
        except I.Gone as e:
            bad = bad or "%s; last %r; printed %r" % (e, log[-1:], p.buf[-500:])
            res = p.end(kill=str(e) != "ended")
        finally:
            for s in socks:
                s.close()
        chk.count("select:rounds", len(log))
    c.files = {"log": repr(log)}
    if bad:
        bad += "\nlog %r" % (log[-3:],)
    return c, v, bad, res


# ---------------------------------------------------------------- C: TCP

def reserve():
    """A port nobody else will use; the interpreter listens with SO_REUSEPORT."""
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
    s.bind(("0.0.0.0", 0))
    return s, s.getsockname()[1]


def push(s, data, r, pause):
    """Send data in pieces."""
    o = 0
    while o < len(data):
        k = r.choice([1, 7, 100, 1000, 1024, 5000, 40000]) + len(data) // 80 if pause else len(data)
        s.sendall(data[o:o + k])
        o += k
        if pause and r.random() < 0.3:
            time.sleep(r.random() * pause)


def pull(s, r, pause):
    out = b""
    while True:
        d = s.recv(r.choice([1, 50, 1000, 65536]) if pause and len(out) < 2000 else 65536)
        if not d:
            return out
        out += d
        if len(out) > 4000000:
            return out
        if pause and r.random() < 0.02:
            time.sleep(r.random() * pause)


def piece(s):
    """A literal and its repetitions: the reader takes long for long literals."""
    for k in (40, 7):
        if len(s) % k == 0 and s == s[:len(s) // k] * k:
            return lit(s[:len(s) // k]), " S" * k
    return lit(s), " S"


def run_c(i):
    r = chk.rng("C", i)
    v = ("asan", "rel")[i % 2]
    c = Case(i, "C")
    n = r.choice([1, 2, 4])
    conv = []
    for k in range(n):
        req, lines = content(r)
        while len(req) > 60000:
            req, lines = content(r)
        ans = bytes(r.choice(b"abc de") for _ in range(r.choice([0, 1, 100, 3000])))
        many = r.choice([1, 1, 1, 7, 40])
        conv.append((req, lines, ans * many, r.choice([0, 0, 0.002, 0.01])))
    server = r.random() < 0.5
    hold, port = reserve()
    socks = [hold]
    errs = []
    ports = []
    pre = ""
    if server:
        pre = '(setq srv (listen %d))' % port
        for k, (req, lines, ans, pause) in enumerate(conv):
            c.add("(setq a (accept srv)) (setq fd (car a))")
            c.show("(car (cdr a))", M.string(b"127.0.0.1"))
            c.add("(printl (cdr (cdr a)))", b"@P%d@\n" % k)
            c.show("(in fd (readlines NIL))", shown(lines))
            c.add("(prog (<- 'S %s) (out fd (prin%s)) NIL)" % piece(ans))
            c.show("(close fd)", M.T)
        c.show("(close srv)", M.T)
    else:
        if r.random() < 0.6:        # somebody else listens there
            taken = socket.socket()
            taken.bind(("0.0.0.0", 0))
            taken.listen(1)
            socks.append(taken)
            for _ in range(r.choice([1, 5])):
                c.show('(listen %d)' % taken.getsockname()[1], M.NIL)
        for req, lines, ans, pause in conv:
            c.add('(setq fd (connect "%s" "%d"))' % (r.choice(HOSTS), port))
            c.add("(prog (<- 'S %s) (out fd (prin%s) (prinl)) NIL)" % piece(ans))
            c.show("(in fd (readlines NIL))", shown(lines))
            c.show("(close fd)", M.T)
        if r.random() < 0.5:
            c.show('(connect "127.0.0.1" "1")', M.NIL)
        if r.random() < 0.5:
            c.show('(connect "127.0.0.1" NIL)', M.NIL)
            z = "0" * (1023 - len(str(port))) + str(port)
            c.show('(connect "127.0.0.1" "%s%d")' % (z, r.randrange(10)), M.NIL)     # cut, it would be the port
            c.show('(connect "127.0.0.1%s" "%d")' % (" " * 1100, port), M.NIL)
            c.show('(connect 12 "80")', M.NIL)
            c.show('(listen "80")', M.NIL)
            c.show('(listen -1)', M.NIL)
    script = HEAD.replace("(in NIL", pre + "(in NIL") + "\n".join(c.text) + FOOT

    def clients():
        try:
            for req, lines, ans, pause in conv:
                s = socket.create_connection(("127.0.0.1", port), timeout=40)
                socks.append(s)
                ports.append(s.getsockname()[1])
                s.settimeout(40)
                push(s, req, r, pause)
                s.shutdown(socket.SHUT_WR)
                got = pull(s, r, pause)
                if got != ans:
                    errs.append("bytes of a client: " + differ(ans, got))
                s.close()
        except OSError as e:
            errs.append("client: %r" % e)

    def servers(ls):
        try:
            for req, lines, ans, pause in conv:
                s, _ = ls.accept()
                socks.append(s)
                s.settimeout(40)
                got = b""
                while len(got) < len(ans) + 1:
                    b = s.recv(65536)
                    if not b:
                        break
                    got += b
                if got != ans + b"\n":
                    errs.append("bytes at a server: " + differ(ans + b"\n", got))
                push(s, req, r, pause)
                s.close()
        except OSError as e:
            errs.append("server: %r" % e)
    th = None
    with H.Scratch() as d:
        with open(os.path.join(d, "t.l"), "wb") as fh:
            fh.write(script.encode("latin-1"))
        if not server:
            ls = socket.socket()
            ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
            ls.bind(("127.0.0.1", port))
            ls.settimeout(40)
            ls.listen(8)
            socks.append(ls)
            th = threading.Thread(target=servers, args=(ls,))
            th.start()
        p = I.Proc(DEST[v], ["-d", "t.l"], d, limit=60)
        bad = None
        try:
            p.until(b"@S@\n")
            fds = p.fds()
            if server:
                th = threading.Thread(target=clients)
                th.start()
            p.send(b"\n")
            got = p.until(b"@E@\n")
            for k, q in enumerate(ports):
                c.want = c.want.replace(b"@P%d@" % k, b"%d" % q)
            if got != c.want:
                bad = differ(c.want, got)
            fds2 = p.fds()
            if len(fds2) != len(fds) - (1 if server else 0) and not bad:
                bad = "descriptors before %s and after %s" % (fds, fds2)
            p.send(b"\n")
            res = p.end()
        except I.Gone as e:
            bad = "%s; printed:\n%s" % (e, differ(c.want, p.buf))
            res = p.end(kill=str(e) != "ended")
        if th:
            th.join(60)
        for s in socks:
            s.close()
    bad = bad or (errs[0] if errs else None)
    chk.count("C:" + ("server" if server else "client"), n)
    c.text.append(script)
    return c, v, bad, res


# ---------------------------------------------------------------- D: HTTP

def token(r, n):
    return "".join(r.choice("abcdefghijkLMNOP-") for _ in range(n)).strip("-") or "x"


def headers(r):
    out = []
    for _ in range(r.choice([0, 1, 2, 5])):
        words = []
        for _ in range(r.choice([1, 1, 2, 4])):
            w = token(r, r.choice([1, 5, 20]))
            if r.random() < 0.2:
                w += ":" + token(r, 3)
            words.append(w)
        out.append((token(r, r.choice([1, 4, 12])), " ".join(words)))
    return out


def wire(r, hs, eol):
    return "".join("%s:%s%s%s%s" % (k, r.choice(["", " ", " ", "  ", "\t"]), x, r.choice(["", "", " "]), eol)
                   for k, x in hs) + eol


def hshow(hs):
    return M.from_list([M.Pair(M.string(k.encode()), M.string(x.encode())) for k, x in hs])


def run_d(i):
    r = chk.rng("D", i)
    v = ("asan", "rel")[i % 2]
    c = Case(i, "D")
    server = r.random() < 0.6
    hold, port = reserve()
    socks = [hold]
    errs = []
    eol = r.choice(["\r\n", "\r\n", "\n"])
    reqs = []
    for _ in range(r.choice([1, 3, 6])):
        reqs.append((r.choice(["GET", "POST", "PUT", "x"]), "/" + token(r, r.choice([1, 8, 60])) +
                     r.choice(["", "?a=b", "/missing"]), headers(r), r.choice([0, 0, 0.003])))
    head = HEAD.replace('"@lib/run.l"', '"@lib/run.l" "@lib/http.l" "@lib/has.l"')
    if server:
        script = head + """
(def cb (op path hdrs body)
  (printl 'Q op path hdrs body)
  (if (= (car (rev path)) ^g) 'NOT_FOUND (list op)))
(http/serve %d cb)
""" % port + FOOT
    else:
        c.add('(def fn (code mesg hdrs) (printl code mesg hdrs (readlines NIL)))')
        resp = []
        for _, path, hs, pause in reqs:
            code_ = r.choice(["200", "404", "500", "301"])
            mesg = " ".join(token(r, 4) for _ in range(r.choice([1, 2, 3])))
            body, lines = content(r, big=False)
            raw = ("HTTP/1.1 %s %s%s" % (code_, mesg, eol) + wire(r, hs, eol)).encode() + body
            bad_ = r.random() < 0.15
            if bad_:
                raw = r.choice([b"HTTP/9 200 OK\r\n\r\n", b"nonsense\n\n", b"\n"])
                c.add('(prog (http/get "127.0.0.1" "%d" "%s" fn) NIL)' % (port, path), b"Invalid HTTP response\n")
            else:
                c.add('(prog (http/get "127.0.0.1" "%d" "%s" fn) NIL)' % (port, path), b" ".join([
                    M.show(M.string(code_.encode())), M.show(M.string(mesg.encode())), M.show(hshow(hs)),
                    shown(lines)]) + b"\n")
            resp.append((path, raw, pause))
        if r.random() < 0.4:
            c.add('(prog (http/get "127.0.0.1" "1" "/" fn) NIL)', b"Connecting to 127.0.0.1 on port 1 failed\n")
        script = head + "\n".join(c.text) + FOOT

    def servers(ls):
        try:
            for path, raw, pause in resp:
                s, _ = ls.accept()
                socks.append(s)
                s.settimeout(40)
                want = b"GET %s HTTP/1.1\nHost: 127.0.0.1\nConnection: close\n\n" % path.encode()
                got = b""
                while len(got) < len(want):
                    b = s.recv(65536)
                    if not b:
                        break
                    got += b
                if got != want:
                    errs.append("request: " + differ(want, got))
                push(s, raw, r, pause)
                s.close()
        except OSError as e:
            errs.append("server: %r" % e)
    with H.Scratch() as d:
        with open(os.path.join(d, "t.l"), "wb") as fh:
            fh.write(script.encode("latin-1"))
        th = None
        if not server:
            ls = socket.socket()
            ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
            ls.bind(("127.0.0.1", port))
            ls.settimeout(40)
            ls.listen(8)
            socks.append(ls)
            th = threading.Thread(target=servers, args=(ls,))
            th.start()
        p = I.Proc(DEST[v], ["-d", "t.l"], d, limit=60)
        bad = None
        try:
            p.until(b"@S@\n")
            fds = p.fds()
            p.send(b"\n")
            if server:
                def conn():
                    t = time.time() + 30
                    while True:
                        try:
                            s = socket.create_connection(("127.0.0.1", port), timeout=40)
                            break
                        except OSError:
                            if time.time() > t:
                                raise
                            time.sleep(0.01)
                    socks.append(s)
                    line = p.until(b"\n")
                    me = s.getsockname()
                    want = b"Accepting connection from %s:%d" % (me[0].encode(), me[1])
                    if line != want:
                        errs.append("accepted: %r instead of %r" % (line, want))
                    return s
                idle = [conn()]
                for k, (op, path, hs, pause) in enumerate(reqs):
                    if r.random() < 0.3:
                        idle.append(conn())
                    s = conn()
                    inv = r.random() < 0.15
                    if inv:
                        push(s, r.choice([b"nonsense\r\n\r\n", b"GET /\r\n\r\n", b"GET / HTTP/1.0\r\n\r\n"]), r, 0)
                        line, want = p.until(b"\n"), b"Invalid HTTP request"
                        ans = b""
                    else:
                        push(s, ("%s %s HTTP/1.1%s" % (op, path, eol) + wire(r, hs, eol)).encode(), r, pause)
                        line = p.until(b"\n")
                        want = b" ".join([b"Q", M.show(M.string(op.encode())), M.show(M.string(path.encode())),
                                          M.show(hshow(hs)), b"NIL"])
                        ans = b"HTTP/1.1 404 Not Found" if path[-1] == "g" else b"HTTP/1.1 500 Internal Server Error"
                        ans += b"\nConnection: close\n\n"
                    chk.count("D:request")
                    if line != want:
                        errs.append("request: " + differ(want, line))
                    s.settimeout(40)
                    try:
                        got = pull(s, r, pause)
                    except ConnectionResetError:
                        got = ans if inv else b"reset"
                    if got != ans:
                        errs.append("response: " + differ(ans, got))
                    s.close()
                    if len(idle) > 1 and r.random() < 0.5:
                        idle.pop(r.randrange(len(idle))).close()
                    if errs:
                        break
                for s in idle:
                    s.close()
                got = p.until(b"@E@\n")
                if got:
                    errs.append("printed %r" % got)
            else:
                chk.count("D:get", len(reqs))
                got = p.until(b"@E@\n")
                if got != c.want:
                    bad = differ(c.want, got)
            fds2 = p.fds()
            if fds2 != fds and not bad:
                bad = "descriptors before %s and after %s" % (fds, fds2)
            p.send(b"\n")
            res = p.end()
        except I.Gone as e:
            bad = (errs[0] if errs else "") + "%s; printed:\n%s" % (e, differ(c.want, p.buf))
            res = p.end(kill=str(e) != "ended")
        except OSError as e:
            bad = "client: %r" % e
            res = p.end(kill=True)
        if th:
            th.join(60)
        for s in socks:
            s.close()
    c.text = [script, repr(reqs)]
    return c, v, (errs[0] if errs else None) or bad, res


def go(job):
    kind, i = job
    try:
        if kind == "A":
            return run_a(make_a(i))
        return {"B": run_b, "C": run_c, "D": run_d}[kind](i)
    except Exception as e:
        raise RuntimeError("%s %d: %r" % (kind, i, e)) from e


if __name__ == "__main__":
    want = {"A": chk.n(350, 4000), "B": chk.n(700, 8000), "C": chk.n(200, 2000), "D": chk.n(250, 3000)}
    for a in sys.argv[1:]:          # for development: KIND:INDEX
        if ":" in a:
            c, v, bad, res = go((a[0], int(a[2:])))
            print("\n".join(c.text)[-3000:], v, bad, res.rc, res.live(), res.err[-500:].decode("latin-1"))
            sys.exit(0)
    jobs = [(k, i) for k in "ABCD" for i in range(want[k])]
    chk.rng("order").shuffle(jobs)
    for k, (c, v, bad, res) in enumerate(H.pmap(go, jobs)):
        if k < 4:
            chk.sample("\n".join(c.text)[:700])
        verdict(c, v, bad, res)
        if chk.too_many():
            break
    chk.finish(minimum=chk.n(300, 3000))
