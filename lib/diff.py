"""Differential runner: programs on the real interpreter against the model."""
import harness as H
import model as M

HEADER = """(load 'std 'logic 'math 'io "@lib/append.l" "@lib/iterators.l" "@lib/rev.l" "@lib/filter.l" "@lib/has.l"
 "@lib/manips.l")
"""


def expect(exprs, steps=30000, lib=True):
    """Expected output of a case, or None when it has no specified meaning."""
    it = M.Interp(steps)
    if lib:
        it.library()
    try:
        for t in exprs:
            xs = M.read_all(t)
            assert len(xs) == 1, t
            v = it.top(xs[0])
            it.emit(b"=> " + M.show(v) + b"\n")
            if sum(map(len, it.out)) > 20000:
                return None, it
    except (M.Unsupported, M.ReadError, RecursionError):
        return None, it
    return b"".join(it.out), it


def generate(chk, make, count, lib=True, steps=30000):
    """make(i) -> list of expression texts. Returns [(i, exprs, expected)]."""
    jobs = H.JOBS if count >= 200 else 1

    def part(k):
        out, counts = [], {}
        for i in range(k, count, jobs):
            exprs = make(i)
            try:
                exp, it = expect(exprs, steps, lib)
            except Exception as e:
                raise AssertionError("model failed on\n%s\n%r" % ("\n".join(exprs), e))
            if exp is None:
                counts["dropped_by_model"] = counts.get("dropped_by_model", 0) + 1
                continue
            for c, v in it.calls.items():
                counts["calls:" + c] = counts.get("calls:" + c, 0) + v
            out.append((i, exprs, exp))
        return out, counts
    res = H.fork_map(lambda k: M.run_threaded(lambda: part(k)), range(jobs))
    cases = []
    for out, counts in res:
        cases += out
        for c, v in counts.items():
            chk.count(c, v)
    cases.sort(key=lambda c: c[0])
    return cases


def text_of(cases, header=HEADER):
    out = [header]
    for i, exprs, _ in cases:
        out.append('(prinl "\x01%s\x01")' % i)
        for e in exprs:
            out.append(e2(e))
    out.append('(prinl "\x01END\x01") T')
    return "\n".join(out) + "\n"


def e2(e):
    # the value is printed after the output of its evaluation
    return '((\\ (-r-) (prin "=> ") (printl -r-)) %s)' % e


def markers(out):
    """Output by marker."""
    parts = out.split(b"\x01")
    res = {}
    for j in range(1, len(parts) - 1, 2):
        body = parts[j + 1]
        res[parts[j].decode("latin-1")] = body[1:] if body[:1] == b"\n" else body
    return res


def run_batches(chk, cases, variants, per=40, header=HEADER, args=("-d",), leaks=False, timeout=40, env=None,
                extra=None):
    """Run the cases in batches over the variants; report differences."""
    dests = {v: chk.build(v) for v in variants}
    batches = []
    for k in range(0, len(cases), per):
        batches.append((variants[(k // per) % len(variants)], cases[k:k + per]))

    def one(job):
        variant, batch = job
        with H.Scratch() as d:
            import os
            path = os.path.join(d, "t.l")
            with open(path, "wb") as fh:
                fh.write(text_of(batch, header).encode("latin-1"))
            return job, H.run(dests[variant], list(args) + [path], cwd=d, timeout=timeout, env=env)
    for (variant, batch), r in H.pmap(one, batches):
        judge(chk, variant, batch, r, header, leaks)
        if extra:
            extra(variant, batch, r)
        if chk.too_many():
            break


def judge(chk, variant, batch, r, header, leaks):
    chk.count("processes")
    chk.count("runs:" + variant)
    if r.stats:
        chk.count("cells_allocated", r.stats[0])
    got = markers(r.out)
    bad = 0
    for i, exprs, exp in batch:
        chk.saw("\n".join(exprs))
        g = got.get(str(i))
        if g != exp:
            bad += 1
            if bad == 1:
                why = r.monitor() or ("timeout" if r.timeout else "rc=%s" % r.rc)
                chk.violation("differs from the model: " + (r.monitor() or "output"),
                              "variant %s, %s\n-- expected --\n%s\n-- got --\n%s\n-- stderr --\n%s" % (
                                  variant, why, exp.decode("latin-1"),
                                  (g if g is not None else b"<nothing>").decode("latin-1"),
                                  r.err[-3000:].decode("latin-1")),
                              text_of([(i, exprs, exp)], header))
    if not bad:
        m = r.monitor()
        if m:
            chk.violation(m, "variant %s\n%s" % (variant, r.err[-4000:].decode("latin-1")), text_of(batch, header))
        elif r.timeout:
            chk.violation("hang at the end of a batch", "variant " + variant, text_of(batch, header))
        elif leaks and (r.rc != 0 or (r.stats and r.live() != 0)):
            culprit = batch
            chk.violation("cells not released at exit (rc=%s, live=%s)" % (r.rc, r.live()),
                          "variant %s" % variant, text_of(culprit, header))
