"""Talking to a running interpreter: markers on its stdout, lines on its stdin."""
import os
import select
import signal
import subprocess
import tempfile
import time

import harness as H


class Gone(Exception):
    """The interpreter stopped talking."""


class Proc:
    def __init__(self, dest, args, cwd, env=None, pass_fds=(), limit=60, stats=True):
        self.env = H.base_env(dest, env)
        self.env["PWD"] = cwd
        fd, self.sf = tempfile.mkstemp(prefix="mnml-stats-")
        os.close(fd)
        if stats:
            self.env["MNML_VERIF_STATS"] = self.sf
        self.errf = tempfile.TemporaryFile()
        self.limit = limit
        self.t0 = time.time()
        self.p = subprocess.Popen([os.path.join(dest, "bin", "mnml")] + list(args), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.errf, cwd=cwd, env=self.env,
                                  start_new_session=True, pass_fds=pass_fds)
        self.buf = b""
        self.all = b""

    def more(self, deadline):
        left = deadline - time.time()
        if left <= 0:
            raise Gone("no answer")
        r, _, _ = select.select([self.p.stdout], [], [], left)
        if not r:
            raise Gone("no answer")
        d = os.read(self.p.stdout.fileno(), 65536)
        if not d:
            raise Gone("ended")
        self.buf += d
        self.all += d

    def until(self, mark):
        """What was printed before MARK."""
        deadline = time.time() + self.limit
        while mark not in self.buf:
            self.more(deadline)
        k = self.buf.index(mark)
        out, self.buf = self.buf[:k], self.buf[k + len(mark):]
        return out

    def send(self, b):
        try:
            self.p.stdin.write(b)
            self.p.stdin.flush()
        except OSError:
            raise Gone("ended")

    def fds(self):
        """The open descriptors: number -> target; not the copy of stdin of a pending (in NIL ...)."""
        out = {}
        d = "/proc/%d/fd" % self.p.pid
        try:
            for f in os.listdir(d):
                try:
                    out[int(f)] = os.readlink(os.path.join(d, f))
                except OSError:
                    pass
        except OSError:
            raise Gone("ended")
        return {f: t for f, t in out.items() if f < 3 or t != out.get(0)}

    def children(self):
        try:
            with open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)) as fh:
                return fh.read().split()
        except OSError:
            return []

    def end(self, kill=False):
        """Wait for the end; the Result as of harness.run."""
        res = H.Result()
        res.timeout = False
        if not kill:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            deadline = time.time() + self.limit
            try:
                while True:
                    self.more(deadline)
            except Gone as e:
                res.timeout = str(e) != "ended"
            if not res.timeout:
                try:
                    self.p.wait(self.limit)
                except subprocess.TimeoutExpired:
                    res.timeout = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.p.stdout.close()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        res.rc = self.p.returncode
        res.out = self.all
        self.errf.seek(0)
        res.err = self.errf.read()
        self.errf.close()
        res.stats = None
        res.wall = time.time() - self.t0
        try:
            with open(self.sf) as fh:
                lines = fh.read().split("\n")
            if lines and lines[0]:
                res.stats = [int(x) for x in lines[-2].split()]
        except (OSError, ValueError, IndexError):
            pass
        os.unlink(self.sf)
        return res
