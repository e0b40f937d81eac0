"""Builds minima.l from /repo's current working tree, outside /repo.

Variants
  asan : the shipped Debug configuration (LISP_ENABLE_DEBUG, SSE) at -O1 with
         AddressSanitizer + UndefinedBehaviorSanitizer and the cell monitor
         (c/monitor.c, linked in with --wrap: freed cells are poisoned and held
         in a FIFO quarantine, allocation events are counted).
  plain: the shipped Debug configuration, no instrumentation.
  rel  : the release configuration (no LISP_ENABLE_DEBUG, no SSE), -O2, with
         AddressSanitizer + UndefinedBehaviorSanitizer and the cell monitor.

A build is keyed by the hash of every file it is made from and kept in
/verif/build/<variant>-<hash>/, laid out like an install prefix:
bin/mnml, lib/mnml/lib*.so, share/mnml -> /repo/share/mnml, obj/*.o
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

TRANSPILED = {
    "iterators": "foldl,foldr,map,map2,zip",
    "manips": "assoc,caar,cddr,cadar,caddr,cadr,cdar,last,rep,truncl",
}

DEFS = [
    '-DMNML_BUILD_TIMESTAMP="verif"', '-DMNML_COMPILER_ID="GNU"',
    '-DMNML_COMPILER_VERSION="13"', '-DMNML_VERSION="2.3.0"',
    "-DYYNOERRORRECOVERY", "-D_GNU_SOURCE",
]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment",
       "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": dict(cflags=["-g", "-O1", "-DLISP_ENABLE_DEBUG", "-DLISP_ENABLE_SSE",
                         "-msse4.2"] + SAN, monitor=True, san=True),
    "plain": dict(cflags=["-g", "-O0", "-DLISP_ENABLE_DEBUG", "-DLISP_ENABLE_SSE",
                          "-msse4.2"], monitor=False, san=False),
    "rel": dict(cflags=["-g", "-O2"] + SAN, monitor=True, san=True),
}
WRAPS = ["slab_allocate", "slab_deallocate", "slab_delete"]


class BuildError(Exception):
    pass


def source_files():
    out = []
    for top in ("lib", "include", "bin", "share"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                out.append(os.path.join(d, f))
    return out


def tree_hash(variant, extra=()):
    h = hashlib.sha256()
    h.update(repr((variant, VARIANTS[variant], DEFS, WRAPS, TRANSPILED)).encode())
    files = source_files()
    files += [os.path.join(VERIF, "c", f) for f in sorted(os.listdir(os.path.join(VERIF, "c")))]
    for f in files:
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()[:16]


def run(cmd, **kw):
    kw.setdefault("timeout", 600)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-4000:]))
    return r.stdout


def glob_c(path):
    if not os.path.isdir(path):
        return []
    return [os.path.join(path, f) for f in sorted(os.listdir(path)) if f.endswith(".c")]


def san_env(base=None):
    env = dict(base if base is not None else {})
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                           "handle_segv=1:allow_user_poisoning=1:"
                           "detect_stack_use_after_return=0:symbolize=1:"
                           "max_allocation_size_mb=4096")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    return env


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(variant)
    dest = os.path.join(BUILD, "%s-%s" % (variant, key))
    if os.path.exists(os.path.join(dest, ".done")):
        return dest
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".done")):
            return dest
        # drop stale builds of this variant
        for d in os.listdir(BUILD):
            if d.startswith(variant + "-"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = dest
        os.makedirs(tmp)
        _build(variant, tmp)
        open(os.path.join(tmp, ".done"), "w").close()
    return dest


def _build(variant, dest):
    V = VARIANTS[variant]
    obj = os.path.join(dest, "obj")
    os.makedirs(obj)
    os.makedirs(os.path.join(dest, "bin"))
    os.makedirs(os.path.join(dest, "lib", "mnml"))
    os.makedirs(os.path.join(dest, "share"))
    os.makedirs(os.path.join(dest, "home", ".mnml"))
    os.symlink(os.path.join(REPO, "share", "mnml"), os.path.join(dest, "share", "mnml"))
    gram = os.path.join(dest, "grammar")
    os.makedirs(gram)
    gsrc = os.path.join(REPO, "lib", "grammar")
    shutil.copy(os.path.join(gsrc, "parser.y"), gram)
    tmpl = "/usr/share/lemon/lempar.c"
    run(["lemon", "T=" + tmpl, "-q", "parser.y"], cwd=gram)
    run(["ragel", os.path.join(gsrc, "lexer.rl"), "-o", os.path.join(gram, "lexer.c")], cwd=gsrc)
    base = ["gcc", "-std=gnu99", "-w", "-fPIC", "-U_FORTIFY_SOURCE", "-I" + os.path.join(REPO, "include"),
            "-I" + REPO, "-I" + gram] + DEFS + V["cflags"]
    jobs = []
    core = []
    for f in glob_c(os.path.join(REPO, "lib", "core")):
        core.append((f, os.path.join(obj, "core_" + os.path.basename(f)[:-2] + ".o")))
    for f in glob_c(gsrc):
        core.append((f, os.path.join(obj, "grammar_" + os.path.basename(f)[:-2] + ".o")))
    core.append((os.path.join(gram, "lexer.c"), os.path.join(obj, "grammar_lexer.o")))
    jobs += core
    main_o = (os.path.join(REPO, "bin", "mnml.c"), os.path.join(obj, "main.o"))
    jobs.append(main_o)
    mods = {}
    mroot = os.path.join(REPO, "lib", "mnml")
    for m in sorted(os.listdir(mroot)):
        if os.path.isdir(os.path.join(mroot, m)):
            l = []
            for f in glob_c(os.path.join(mroot, m)):
                l.append((f, os.path.join(obj, "mod_%s_%s.o" % (m, os.path.basename(f)[:-2]))))
            if l:
                mods[m] = l
                jobs += l
    mon = []
    if V["monitor"]:
        mon = [(os.path.join(VERIF, "c", "monitor.c"), os.path.join(obj, "monitor.o"))]
        jobs += mon
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: run(base + ["-c", j[0], "-o", j[1]]), jobs))
    wrap = ["-Wl,--wrap=" + w for w in WRAPS] if V["monitor"] else []
    link = ["gcc"] + V["cflags"] + wrap
    exe = os.path.join(dest, "bin", "mnml")
    run(link + ["-rdynamic"] + [o for _, o in core] + [main_o[1]] + [o for _, o in mon]
        + ["-o", exe, "-ldl"])

    def so(m, objs):
        run(link + ["-shared", "-o", os.path.join(dest, "lib", "mnml", "lib%s.so" % m)] + objs)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda kv: so(kv[0], [o for _, o in kv[1]]), mods.items()))
    # transpiled plugins: same rule as lib/mnml/CMakeLists.txt
    env = san_env({"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.path.join(dest, "home"),
                   "PWD": dest, "MNML_SCRIPT_PATH": os.path.join(REPO, "share", "mnml")})
    tp = os.path.join(dest, "transpiled")
    os.makedirs(tp)

    def transpile(m):
        out = os.path.join(tp, m + ".c")
        try:
            r = subprocess.run([exe, os.path.join(REPO, "bin", "mnmlc"), "-c",
                                os.path.join(REPO, "share", "mnml", m + ".l"), "-m", m,
                                "-s", TRANSPILED[m], "-o", out],
                               env=env, cwd=dest, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            log = r.stdout
            rc = r.returncode
        except subprocess.TimeoutExpired:
            log, rc = b"timeout", -1
        with open(os.path.join(tp, m + ".log"), "wb") as fh:
            fh.write(log + b"\nrc=%d\n" % rc)
        try:
            run(base + ["-c", out, "-o", os.path.join(obj, "tp_%s.o" % m)])
            so(m, [os.path.join(obj, "tp_%s.o" % m)])
        except BuildError as e:
            with open(os.path.join(tp, m + ".log"), "a") as fh:
                fh.write("\nBUILD FAILED\n" + str(e))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(transpile, TRANSPILED))


def build_harness(variant, name, src, monitor=False, extra=()):
    """Link a C harness (c/<src>) with the core objects of a variant."""
    dest = build(variant)
    V = VARIANTS[variant]
    exe = os.path.join(dest, "bin", name)
    if os.path.exists(exe):
        return exe
    core = [os.path.join(dest, "obj", o) for o in sorted(os.listdir(os.path.join(dest, "obj")))
            if o.startswith(("core_", "grammar_"))]
    if monitor:
        core.append(os.path.join(dest, "obj", "monitor.o"))
        extra = list(extra) + ["-Wl,--wrap=" + w for w in WRAPS]
    tmp = exe + ".%d" % os.getpid()
    run(["gcc", "-std=gnu99", "-w", "-fPIC", "-U_FORTIFY_SOURCE", "-I" + os.path.join(REPO, "include"),
         "-I" + REPO] + DEFS + V["cflags"] + list(extra)
        + [os.path.join(VERIF, "c", src)] + core + ["-rdynamic", "-o", tmp, "-ldl"])
    os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        print(build(v))
