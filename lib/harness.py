"""Shared machinery of the checks: running the real interpreter under the
monitors, verdicts, known findings, replay files and evidence."""
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B          # noqa: E402

VERIF = B.VERIF
REPO = B.REPO
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


HANGS = [0]
CURRENT = [None]


class Result:
    __slots__ = ("rc", "out", "err", "stats", "timeout", "wall")

    def monitor(self):
        """The complaint of the sanitizers / the cell monitor, or None."""
        if self.timeout:
            return None
        if self.rc == 99 or b"AddressSanitizer" in self.err or b"runtime error:" in self.err:
            return "sanitizer report: " + first(self.err, (b"ERROR: AddressSanitizer", b"runtime error:"))
        if self.rc == 98 or b"MNML-MONITOR:" in self.err:
            return "cell monitor: " + first(self.err, (b"MNML-MONITOR:",))
        if self.rc is not None and self.rc < 0:
            return "killed by signal %s" % signal.Signals(-self.rc).name
        return None

    def live(self):
        return self.stats[3] if self.stats else None


def first(err, pats):
    for line in err.split(b"\n"):
        for p in pats:
            if p in line:
                return line.decode("latin-1")[:300]
    return err[-300:].decode("latin-1")


class Scratch:
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="mnml-verif-")

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def base_env(dest, extra=None):
    env = B.san_env({"PATH": "/usr/bin:/bin", "HOME": os.path.join(dest, "home"),
                     "LANG": "C", "LC_ALL": "C"})
    env.update(extra or {})
    return env


def run(variant_dest, args, stdin=b"", cwd=None, timeout=60, env=None, stats=True, stack_kb=None,
        pass_fds=(), retry=True):
    """Run bin/mnml of a build; a hang is confirmed by a second, longer run."""
    if HANGS[0] >= 2:       # hangs were confirmed: do not wait as long for the next ones
        timeout, retry = min(timeout, 20), False
    r = _run(variant_dest, args, stdin, cwd, timeout, env, stats, stack_kb, pass_fds)
    if r.timeout and retry:
        if HANGS[0] < 2:
            r = _run(variant_dest, args, stdin, cwd, timeout * 2, env, stats, stack_kb, pass_fds)
        if r.timeout:
            HANGS[0] += 1
    return r


def _run(dest, args, stdin, cwd, timeout, env, stats, stack_kb, pass_fds):
    e = base_env(dest, env)
    sf = None
    own = None
    if cwd is None:
        own = tempfile.mkdtemp(prefix="mnml-verif-")
        cwd = own
    if stats:
        fd, sf = tempfile.mkstemp(prefix="mnml-stats-")
        os.close(fd)
        e["MNML_VERIF_STATS"] = sf
    e["PWD"] = cwd
    cmd = [os.path.join(dest, "bin", "mnml")] + list(args)
    if stack_kb:
        cmd = ["/bin/bash", "-c", "ulimit -s %d; exec \"$@\"" % stack_kb, "x"] + cmd
    res = Result()
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=e, start_new_session=True, pass_fds=pass_fds)
    try:
        if isinstance(stdin, tuple):      # (bytes, rng): delivered in pieces
            import data
            th = data.feed(p, stdin[0], stdin[1])
            res.out, res.err = collect(p, timeout)
            th.join()
        else:
            res.out, res.err = p.communicate(stdin, timeout=timeout)
        res.timeout = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        res.out, res.err = collect(p, None) if isinstance(stdin, tuple) else p.communicate()
        res.timeout = True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    res.rc = p.returncode
    res.wall = time.time() - t0
    res.stats = None
    if sf:
        try:
            with open(sf) as fh:
                lines = fh.read().split("\n")
            if lines and lines[0]:
                res.stats = [int(x) for x in lines[-2].split()]
        except (OSError, ValueError):
            pass
        os.unlink(sf)
    if own:
        shutil.rmtree(own, ignore_errors=True)
    return res


def collect(p, timeout):
    """Read stdout and stderr of a process whose stdin another thread feeds."""
    bufs = getattr(p, "_bufs", None)
    if bufs is None:
        bufs = p._bufs = ([], [])
        p._ths = []
        for f, b in ((p.stdout, bufs[0]), (p.stderr, bufs[1])):
            def go(f=f, b=b):
                while True:
                    d = os.read(f.fileno(), 65536)
                    if not d:
                        return
                    b.append(d)
            t = threading.Thread(target=go)
            t.start()
            p._ths.append(t)
    p.wait(timeout)
    for t in p._ths:
        t.join(10)
    return b"".join(bufs[0]), b"".join(bufs[1])


def run_harness(exe, args, timeout=300, env=None, cwd=None, stdin=b""):
    r = Result()
    r.stats = None
    t0 = time.time()
    p = subprocess.Popen([exe] + [str(a) for a in args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=base_env("/nonexistent", env), cwd=cwd or "/",
                         start_new_session=True)
    try:
        r.out, r.err = p.communicate(stdin, timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.wall = time.time() - t0
    return r


def pmap(fn, items, jobs=None):
    """Parallel map in order, lazily; stops when the check has seen enough.
    Exceptions propagate."""
    jobs = jobs or JOBS
    items = list(items)
    ex = ThreadPoolExecutor(jobs)
    try:
        window = []
        k = 0
        while k < len(items) or window:
            if CURRENT[0] is not None and CURRENT[0].too_many():
                return
            while k < len(items) and len(window) < 4 * jobs:
                window.append(ex.submit(fn, items[k]))
                k += 1
            yield window.pop(0).result()
    finally:
        ex.shutdown(wait=True, cancel_futures=True)


def fork_map(fn, items):
    """Map in one forked process per item (CPU-bound Python work)."""
    items = list(items)
    if len(items) == 1:
        return [fn(items[0])]
    kids = []
    for it in items:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                try:
                    data = pickle.dumps((True, fn(it)))
                    code = 0
                except BaseException as e:      # noqa
                    data = pickle.dumps((False, "%s: %s" % (type(e).__name__, e)))
                with os.fdopen(w, "wb") as fh:
                    fh.write(data)
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("generator process died")
        ok, v = pickle.loads(data)
        if not ok:
            raise RuntimeError(v)
        out.append(v)
    return out


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.t0 = time.time()
        CURRENT[0] = self
        self.viol = []
        self.known_hit = {}
        self.known = load_known(prop)
        self.evals = 0
        self.distinct = set()
        self.more_distinct = 0      # distinct cases counted by a C harness
        self.samples = []
        self.counts = {}
        self.inconclusive = 0
        self.assumptions = []
        self.rdir = os.path.join(EVID, "replay", prop)
        shutil.rmtree(self.rdir, ignore_errors=True)
        os.makedirs(EVID, exist_ok=True)

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def build(self, variant):
        try:
            return B.build(variant)
        except B.BuildError as e:
            print("BUILD-ERROR %s: %s" % (variant, e))
            self.evidence("build failed")
            sys.exit(2)

    def harness(self, variant, name, src, monitor=False):
        """Build a C harness; a harness that does not compile decides nothing."""
        try:
            return B.build_harness(variant, name, src, monitor)
        except B.BuildError as e:
            print("BUILD-ERROR %s: %s" % (name, e))
            self.evidence("harness build failed")
            sys.exit(2)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def saw(self, case, trivial=False):
        """Record one evaluated case."""
        self.evals += 1
        if not trivial:
            if not isinstance(case, bytes):
                case = str(case).encode("utf-8", "surrogateescape")
            self.distinct.add(hashlib.md5(case).digest()[:8])

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            if isinstance(s, bytes):
                s = s.decode("latin-1")
            self.samples.append(s if not isinstance(s, str) else s[:1500])

    def violation(self, key, detail, replay=None):
        """key: what fails, matched against the known findings."""
        for k in self.known:
            if k["match"] in key:
                self.known_hit[k["match"]] = k
                return
        self.viol.append((key, detail, replay))
        if len(self.viol) <= 4:
            sys.stderr.write("violation: %s\n%s\n" % (key, detail if isinstance(detail, str) else repr(detail)))

    def too_many(self):
        """Enough was seen: many violations, or time is running out."""
        t = time.time() - self.t0
        return len(self.viol) >= 8 or (self.viol and t > 240) or t > self.n(780, 6 * 3600)

    def evidence(self, note=None):
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.distinct) + self.more_distinct,
            "rule": getattr(self, "rule", ""),
            "samples": self.samples,
            "observed": dict(sorted(self.counts.items())),
        }
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        if note:
            cov["note"] = note
        if self.known_hit:
            cov["known_findings_seen"] = sorted(self.known_hit)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
        }
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.rename(p + ".tmp", p)

    def finish(self, minimum=1):
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.evidence()
        if self.viol:
            os.makedirs(self.rdir, exist_ok=True)
            for i, (key, detail, replay) in enumerate(self.viol[:8]):
                path = os.path.join(self.rdir, "%d.txt" % i)
                with open(path, "wb") as fh:
                    d = detail if isinstance(detail, bytes) else str(detail).encode("utf-8", "surrogateescape")
                    fh.write(b"# property %s seed %d tier %s\n# %s\n" %
                             (self.prop.encode(), self.seed, self.tier.encode(), key.encode("utf-8", "replace")))
                    fh.write(d + b"\n")
                    if replay is not None:
                        fh.write(b"# ---- replay ----\n")
                        fh.write(replay if isinstance(replay, bytes) else
                                 str(replay).encode("utf-8", "surrogateescape"))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.exit(1)
        if self.evals < minimum or len(self.distinct) + self.more_distinct < 1:
            print("INCONCLUSIVE property=%s: only %d cases observed" % (self.prop, self.evals))
            sys.exit(2)
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs %s" % (
            self.prop, self.evals, len(self.distinct) + self.more_distinct, time.time() - self.t0,
            json.dumps(dict(list(sorted(self.counts.items()))[:12]))))
        sys.exit(0)


def load_known(prop):
    """known-findings.txt: lines `KNOWN property=<id> match=<key text> :: <what>`"""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    body = line.split(" ", 2)[2]
                    m, what = body.split(" :: ", 1)
                    assert m.startswith("match=")
                    out.append({"match": m[6:], "what": what})
    except OSError:
        pass
    return out
