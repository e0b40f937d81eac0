#!/usr/bin/env python3
"""C17: load gives exactly the named definitions, from the right place, however often."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import harness as H
import model as M

chk = H.Check("C17")
chk.rule = ("(A) random directory trees of files that load each other by relative, absolute, @lib and ~ names, through "
            "symbolic links, from functions, inside let and in, missing and empty, several per call: a simulation on the "
            "same tree gives the trace of every evaluation and the values; (B) histories of loads of modules built for "
            "the purpose (same name in several directories of the search path, wrong, broken and 16-character names) "
            "mixed with redefinitions; (C) every symbol of every shipped module alone; descriptors are counted; "
            "distinct programs counted")
DEST = {v: chk.build(v) for v in ("asan", "rel")}


class Skip(Exception):
    pass


# ---------------------------------------------------------------- A: files

NAMES = ["g%d" % k for k in range(8)]


class Tree:
    """The files, and the simulation of the loads."""

    def __init__(self, r, root):
        self.r, self.root = r, root
        self.home = os.path.join(root, "home")
        self.lib = os.path.join(root, "lib")
        self.use_lib = r.random() < 0.6
        dirs = ["main", "main/a", "main/a/b", "main/c", "home", "home/h", "lib", "lib/s"]
        if r.random() < 0.3:
            d = "main"
            for _ in range(r.choice([1, 3, 8])):
                d += "/" + r.choice("xyz") * r.choice([20, 120, 250])
                dirs.append(d)
        self.dirs = dirs
        self.files = {}         # absolute path -> statements
        self.links = {}
        n = r.choice([3, 6, 12])
        for d in dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        self.libs = [self.lib]
        if r.random() < 0.5:        # several directories, searched in order
            for d in r.sample(dirs[1:], r.randrange(min(3, len(dirs) - 1) + 1)):
                self.libs.append(os.path.join(root, d))
            r.shuffle(self.libs)
            for _ in range(r.choice([0, 0, 1, 2])):
                self.libs.insert(r.randrange(len(self.libs) + 1),
                                 r.choice(["", "", "/nonexistent", "../lib", "nodir", root + "/main/t.l", "/" + "q" * 5000]))
        if not any(self.libs):
            self.libs = [self.lib]
        paths = ["main/t.l"]
        while len(paths) < n:
            p = r.choice(dirs) + "/" + r.choice(["f%d.l", "f%d", "f %d.l", "f.%d.lisp"]) % len(paths)
            paths.append(p)
            if len(self.libs) > 1 and len(paths) < n and r.random() < 0.4:     # the same name in another of them
                p = os.path.relpath(r.choice([x for x in self.libs if x.startswith(root)] or [self.lib]), root) + "/" + p.split("/", 1)[1]
                if p not in paths and os.path.dirname(p) in dirs:
                    paths.append(p)
        for _ in range(r.choice([0, 0, 1, 2])):
            src = r.choice(paths[1:])
            dst = r.choice(dirs) + "/ln%d" % len(self.links)
            self.links[dst] = src
        self.paths = [os.path.join(root, p) for p in paths]
        for dst, src in self.links.items():
            os.symlink(os.path.join(root, src), os.path.join(root, dst))
        self.funs = []
        for k, p in enumerate(self.paths):
            self.files[p] = self.stmts(k, p)
        for p, ss in self.files.items():
            with open(p, "w") as fh:
                fh.write(self.render(ss, p))

    def name_of(self, k, src):
        """A text that may name a later file, seen from file src."""
        r = self.r
        x = r.random()
        if x < 0.08:
            return r.choice(["missing.l", "no/such/dir/x.l", "../../missing", "@lib/missing.l", "~/missing.l", ".", "..",
                             "/nonexistent/y.l", "a", "x" * 300, "x/" * 30 + "y", "y" * 5000])
        later = self.paths[k + 1:k + 5]
        if not later:
            return "missing.l"
        cand = later + [os.path.join(self.root, d) for d, s in self.links.items()
                        if os.path.join(self.root, s) in later]
        p = r.choice(cand)
        y = r.random()
        if y < 0.15:
            t = p
        elif self.use_lib and y < 0.8 and any(x and p.startswith(x + "/") for x in self.libs):
            x = r.choice([x for x in self.libs if x and p.startswith(x + "/")])
            t = "@lib" + p[len(x):]
        elif p.startswith(self.home + "/") and y < 0.8:
            t = "~" + p[len(self.home):]
        else:
            t = os.path.relpath(p, os.path.dirname(src))
            if y > 0.9:
                t = "./" + t
            elif y > 0.85:
                t = t.replace("/", "//", 1) if not t.startswith("/") else t
        if r.random() < 0.04:       # about as long as a path may be
            if t.startswith("/"):
                n = r.choice([4094, 4095, 4095, 4096, 4096, 4097, 4100, 5000])
                t = "/" * (n - len(t)) + t
                if len(t) > 4095 and r.random() < 0.6:      # cut, it would name the file
                    t = "/" * (4095 - len(p)) + p + "x" * (n - 4095)
                    if r.random() < 0.5:
                        t = t[1:] + "x"
            elif t[0] not in "@~":
                n = r.choice([4070, 4080, 4120, 4200, 5000]) - len(os.path.dirname(src)) - 1 - len(t)
                t = "./" * (n // 2) + t
            chk.count("A:paths_of_the_longest")
        return t

    def stmts(self, k, p):
        r = self.r
        out = [("print", "in:%d" % k)]
        for _ in range(r.choice([1, 2, 3, 5])):
            x = r.random()
            if k + 1 == len(self.paths) and r.random() < 0.8:
                x = 0.7 + 0.3 * x
            if x < 0.3:
                out.append(("load", [self.name_of(k, p) for _ in range(r.choice([1, 1, 1, 2, 3]))]))
            elif x < 0.42:
                out.append(("value", [self.name_of(k, p) for _ in range(r.choice([1, 1, 2]))]))
            elif x < 0.5:
                out.append(("let", r.choice(NAMES), r.randrange(1000, 2000), self.name_of(k, p)))
            elif x < 0.55:
                out.append(("in", self.name_of(k, p)))
            elif x < 0.63:
                f = "lf%d" % len(self.funs)
                self.funs.append(f)
                out.append(("fun", f, self.name_of(k, r.choice([p, r.choice(self.paths)]))))
            elif x < 0.7 and self.funs:
                out.append(("call", r.choice(self.funs)))
            elif x < 0.82:
                out.append(("setq", r.choice(NAMES), r.randrange(100)))
            elif x < 0.94:
                out.append(("show", r.choice(NAMES)))
            else:
                out.append(("bad", r.choice(["(load)", "(load 5)", "(load NIL)", "(load T)", "(load ^a)", "(load '(5 6))",
                                             "(load 'nosuchmodule)", "(load '(nosuchmodule a b))", "(load \"\")"])))
        x = r.random()
        if x < 0.3:
            out.append(("ret", r.randrange(5000)))
        elif x < 0.4:
            out.append(("ret", None))
        if k and r.random() < 0.08:
            out = []
        return out

    def render(self, ss, p):
        out = []
        for s in ss:
            if s[0] == "print":
                out.append('(prinl "%s")' % s[1])
            elif s[0] == "load":
                out.append("(load %s)" % " ".join('"%s"' % t for t in s[1]))
            elif s[0] == "value":
                out.append("(printl (load %s))" % " ".join('"%s"' % t for t in s[1]))
            elif s[0] == "let":
                out.append("(let ((%s . %d)) (load \"%s\") (printl 'L %s))" % (s[1], s[2], s[3], s[1]))
            elif s[0] == "in":
                out.append('(in "/dev/null" (printl (load "%s")))' % s[1])
            elif s[0] == "fun":
                out.append('(def %s () (printl (load "%s")))' % (s[1], s[2]))
            elif s[0] == "call":
                out.append("(%s)" % s[1])
            elif s[0] == "setq":
                out.append("(setq %s %d)" % s[1:])
            elif s[0] == "show":
                out.append("(printl '%s %s)" % (s[1], s[1]))
            elif s[0] == "bad":
                out.append("(printl %s)" % s[1])
            else:
                out.append("NIL" if s[1] is None else str(s[1]))
        if p == self.paths[0]:
            out = ["(load 'std 'io 'unix)", "(setq pp (pipe)) (close (car pp) (cdr pp))"] + out + [
                "(setq qq (pipe))", "(printl (- (car pp) (car qq)) (- (cdr pp) (cdr qq)))", '(prinl "end") T']
            out[0] = "(load 'std 'io 'unix 'math)"
        return ("\n" if self.r.random() < 0.7 else " ").join(out) + ("\n" if self.r.random() < 0.8 else "")

    # -- simulation
    def resolve(self, t, d):
        if len(t) > 4096:
            return None
        if t.startswith("@lib"):
            if not self.use_lib:
                raise Skip
            tt = [x + t[4:] for x in self.libs if x]
            tt = [x for x in tt if len(x) <= 4095 and (x[0] == "/" or len(d) + 1 + len(x) <= 4095)]
            if not tt:
                return None
            has = [x for x in tt if os.path.exists(os.path.join(d, x))]
            t = (has or tt)[0]
            if len(self.libs) > 1:
                self.searched += 1
        elif t.startswith("~"):
            t = self.home + t[1:]
        if not t.startswith("/"):
            t = d + "/" + t
        if len(t) > 4095:
            return None
        t = os.path.realpath(t)
        return t if t in self.files else None

    def load(self, t, d, depth=0):
        self.steps += 1
        if self.steps > 150 or depth > 25:
            raise Skip
        p = self.resolve(t, d)
        if p is None:
            self.missing += 1
            return None
        self.loads += 1
        self.run(p, depth)
        return self.last

    def emit(self, s):
        self.out.append(s)

    def val(self, v):
        return "NIL" if v is None else str(v)

    def run(self, p, depth):
        d = os.path.dirname(p)
        self.last = None
        last = None
        for s in self.files[p]:
            if s[0] == "print":
                self.emit(s[1])
                last = M.show(M.string(s[1].encode())).decode()
            elif s[0] == "load":
                for t in s[1]:
                    last = self.load(t, d, depth + 1)
            elif s[0] == "value":
                for t in s[1]:
                    last = self.load(t, d, depth + 1)
                self.emit(self.val(last))
            elif s[0] == "let":
                self.load(s[3], d, depth + 1)
                if self.written.get(s[1]):
                    raise Skip          # setq under a let of the same name
                self.emit("L %d" % s[2])
                last = s[2]
            elif s[0] == "in":
                last = self.load(s[1], d, depth + 1)
                self.emit(self.val(last))
            elif s[0] == "fun":
                self.fdef[s[1]] = s[2]
                last = s[1]
                if s is self.files[p][-1]:
                    raise Skip
            elif s[0] == "call":
                if s[1] in self.fdef:
                    last = self.load(self.fdef[s[1]], d, depth + 1)
                    self.emit(self.val(last))
                else:
                    raise Skip
            elif s[0] == "setq":
                self.glob[s[1]] = s[2]
                last = s[1]
                if s is self.files[p][-1]:
                    raise Skip
            elif s[0] == "show":
                v = self.glob.get(s[1])
                self.emit("%s %s" % (s[1], self.val(v)))
                last = v
            elif s[0] == "bad":
                self.emit("NIL")
                last = None
            else:
                last = s[1]
        self.last = last
        return last

    def expect(self):
        self.out, self.glob, self.fdef, self.written = [], {}, {}, {}
        self.steps = self.loads = self.missing = self.searched = 0
        self.run(self.paths[0], 0)
        self.out += ["0 0", "end"]
        return ("\n".join(self.out) + "\n").encode()


def run_a(i):
    r = chk.rng("A", i)
    v = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        d = os.path.realpath(d)
        t = Tree(r, d)
        text = ""
        for p in t.paths:
            with open(p) as fh:
                text += "# %s\n%s\n" % (os.path.relpath(p, d), fh.read())
        text += "# links %r lib %s\n" % (t.links, t.use_lib)
        try:
            want = t.expect()
        except Skip:
            return i, v, text, None, None, None
        env = {"HOME": t.home}
        if t.use_lib:
            env["MNML_SCRIPT_PATH"] = ":".join(t.libs)
        how = r.randrange(4)
        if how == 0:
            args, cwd = ["-d", t.paths[0]], "/"
        elif how == 1:
            args, cwd = ["-d", "t.l"], os.path.join(d, "main")
        elif how == 2:
            args, cwd = ["-d", "main/t.l"], d
        else:
            args, cwd = ["-d", "-e", '(load "../main/t.l")'], os.path.join(d, "lib")
        res = H.run(DEST[v], args, cwd=cwd, timeout=60, env=env)
        return i, v, text + "# %r in %s" % (args, cwd), want, res, t


# ---------------------------------------------------------------- B: modules

MODS = {
    # name: symbols
    "moda": ["a1", "a2", "a3", "a-long-name-1234", "a-long-name-123x"],
    "modb": ["b1"],
    "sixteencharnamed": ["c1", "c2"],
}


def module_source(name, syms, version, signature=None, entries=True):
    out = ["#include <mnml/lisp.h>", "#include <mnml/module.h>", "#include <mnml/slab.h>"]
    for k, s in enumerate(syms):
        out.append("static atom_t USED lisp_function_f%d(const lisp_t lisp, const atom_t closure) "
                   "{ return lisp_make_number(lisp, %d); }" % (k, version * 100 + k))
        out.append("LISP_MODULE_SETUP(f%d, %s)" % (k, s))
    out.append("static module_entry_t ENTRIES[] = { %s { NULL, NULL } };" % " ".join(
        "LISP_MODULE_REGISTER(f%d)," % k for k in range(len(syms))))
    out.append('const char* USED lisp_module_name() { return "%s"; }' % (signature or name))
    if entries:
        out.append("const module_entry_t* USED lisp_module_entries() { return ENTRIES; }")
    return "\n".join(out) + "\n"


def build_modules(root):
    """Libraries by (name, version); plus wrong ones."""
    jobs = []
    for n, syms in MODS.items():
        for ver in (1, 2, 3):
            jobs.append(("%s-%d" % (n, ver), module_source(n, syms, ver)))
    jobs.append(("wrongname-1", module_source("wrongname", ["w1"], 1, signature="other")))
    jobs.append(("noentries-1", module_source("noentries", ["w1"], 1, entries=False)))
    out = {}
    for v in DEST:
        os.makedirs(os.path.join(root, v))

    def one(job):
        v, (k, src) = job
        c = os.path.join(root, v, k + ".c")
        with open(c, "w") as fh:
            fh.write(src)
        so = os.path.join(root, v, k + ".so")
        B.run(["gcc", "-std=gnu99", "-w", "-fPIC", "-I" + os.path.join(B.REPO, "include")] + B.DEFS
              + B.VARIANTS[v]["cflags"] + ["-shared", "-o", so, c])
        return (v, k), so
    for k, so in H.pmap(one, [(v, j) for v in DEST for j in jobs]):
        out[k] = so
    return out


def run_b(i, libs):
    r = chk.rng("B", i)
    v = ("asan", "rel")[i % 2]
    with H.Scratch() as d:
        home = os.path.join(d, "home")
        os.makedirs(os.path.join(home, ".mnml"))
        user = [os.path.join(d, "u%d" % k) for k in range(r.choice([0, 1, 2, 3]))]
        places = [os.path.join(home, ".mnml")] + user
        for p in user:
            if r.random() < 0.9:
                os.makedirs(p)
        where = {}
        for n in list(MODS):
            for pl in places:
                if os.path.isdir(pl) and r.random() < 0.6:
                    ver = r.choice([1, 2, 3])
                    os.symlink(libs[(v, "%s-%d" % (n, ver))], os.path.join(pl, "lib%s.so" % n))
                    where.setdefault(n, ver)
        for n in ("wrongname", "noentries"):
            os.symlink(libs[(v, n + "-1")], os.path.join(places[0], "lib%s.so" % n))
        with open(os.path.join(places[0], "libtext.so"), "w") as fh:
            fh.write("this is not a library\n")
        env = {"HOME": home}
        if user or r.random() < 0.5:
            env["MNML_MODULE_PATH"] = ":".join(user)
        bound = {}
        out = []
        text = ["(load 'std 'io 'math)"]
        owner = {s: (m, k) for m, ss in MODS.items() for k, s in enumerate(ss)}
        everything = list(owner)

        def show(t, val):
            text.append("(printl %s)" % t)
            out.append(val)

        def names(xs):
            return "(%s)" % " ".join(xs) if xs else "NIL"
        for _ in range(r.choice([10, 25, 60])):
            x = r.random()
            m = r.choice(list(MODS))
            if x < 0.15:
                if m in where:
                    for s in MODS[m]:
                        bound[s] = where[m] * 100 + owner[s][1]
                    show(r.choice(["(load '%s)", "(load '(%s . T))"]) % m, names(MODS[m]))
                else:
                    show("(load '%s)" % m, "NIL")
            elif x < 0.45:
                ss = [r.choice(MODS[m] + everything + ["nosuch", "a", "a-long-name-12"]) for _ in
                      range(r.choice([0, 1, 1, 2, 4]))]
                got = [s for s in ss if m in where and s in MODS[m]]
                for s in got:
                    bound[s] = where[m] * 100 + owner[s][1]
                show("(load '(%s))" % " ".join([m] + ss), names(got))
            elif x < 0.52:
                show(r.choice(["(load 'wrongname)", "(load 'noentries)", "(load 'text)", "(load 'nosuch)",
                               "(load '(wrongname w1))", "(load '(noentries w1))", "(load '(text a1))",
                               "(load '(nosuch a1))", "(load '(moda . 5))", "(load 'mod)", "(load 'modaa)",
                               "(load 'sixteencharname)", "(load '(5 a1))", "(load '(() a1))"]), "NIL")
            elif x < 0.6:
                s = r.choice(everything)
                n = r.randrange(10, 90)
                text.append("(setq %s %d)" % (s, n))
                bound[s] = -n
            elif x < 0.68:
                m2 = r.choice(list(MODS))
                s2 = r.choice(MODS[m2])
                got = [s2] if m2 in where else []
                if got:
                    bound[s2] = where[m2] * 100 + owner[s2][1]
                if m in where:
                    for s in MODS[m]:
                        bound[s] = where[m] * 100 + owner[s][1]
                show("(load '(%s %s) '%s)" % (m2, s2, m), names(MODS[m]) if m in where else "NIL")
            else:
                s = r.choice(everything)
                b = bound.get(s)
                if b is None:
                    show(s, "NIL")
                elif b < 0:
                    show(s, str(-b))
                else:
                    show("(%s)" % s, str(b))
        for s in everything:
            b = bound.get(s)
            show(s if b is None or b < 0 else "(%s)" % s, "NIL" if b is None else str(abs(b)))
        text.append('(prinl "end") T')
        want = ("\n".join(out + ["end"]) + "\n").encode()
        with open(os.path.join(d, "t.l"), "w") as fh:
            fh.write("\n".join(text) + "\n")
        chk.count("B:operations", len(text))
        res = H.run(DEST[v], ["-d", "t.l"], cwd=d, timeout=60, env=env)
        return i, v, "\n".join(text) + "\n# %r in %r" % (where, places), want, res, None


# ---------------------------------------------------------------- C: the shipped modules

SHIPPED = {
    "std": "<- \\ |> car cdr chr chr? conc cond cons def eval if len let list load lst? match nil? num? prog quit "
           "quote setq str str? sym sym? tru? unless when while",
    "logic": "<> = and not or",
    "math": "% * + - / < <= > >=",
    "io": "in out prin prinl print printl read readline",
    "sys": "slabinfo time",
    "unix": "accept close connect dup exec fork listen pipe select unlink wait",
    "iterators": "foldl foldr map map2 zip",
    "manips": "assoc caar cddr cadar caddr cadr cdar last rep truncl",
}
SHIPPED = {m: ss.split() for m, ss in SHIPPED.items()}
DEFAULT = {"load", "quote", "def"}


def run_c(job):
    m, s = job
    v = "asan"
    others = [x for ss in SHIPPED.values() for x in ss if x not in DEFAULT and x != s and x not in ("print", "num?", "list")]
    if s in ("print", "num?", "list"):
        others = []
    text = ["(load '(io print) '(std num? list))"]
    out = b""
    text.append("(print (load '(%s %s)))" % (m, s))
    out += b"(" + s.encode() + b")"
    # a function is shown as a list with its parameters: not NIL
    k = 0
    for x in others:
        text.append("(print %s)" % x)
        out += b"NIL"
        k += 1
    text.append("(print (num? (list %s)))" % s if s != "list" else "(print (num? 1))")
    out += b"T" if s == "list" else b"NIL"
    text.append("T")
    with H.Scratch() as d:
        with open(os.path.join(d, "t.l"), "w") as fh:
            fh.write("\n".join(text) + "\n")
        res = H.run(DEST[v], ["-d", "t.l"], cwd=d, timeout=60)
        return job, v, "\n".join(text), out, res, None


def run_c2(m):
    v = "rel"
    text = ["(load '(io printl))", "(printl (load '%s))" % m, "(printl (load '%s))" % m,
            "(printl (load '(%s)))" % m, "(printl (load '(%s nosuch)))" % m,
            "(printl (load '(%s %s nosuch %s)))" % (m, SHIPPED[m][-1], SHIPPED[m][0]), "T"]
    with H.Scratch() as d:
        with open(os.path.join(d, "t.l"), "w") as fh:
            fh.write("\n".join(text) + "\n")
        res = H.run(DEST[v], ["-d", "t.l"], cwd=d, timeout=60)
    lines = res.out.split(b"\n")
    # all the names are in the list, each once, twice the same list
    got = lines[0].strip(b"()").split()
    ok = len(lines) >= 5 and lines[0] == lines[1] and {s.encode() for s in SHIPPED[m]} <= set(got) and \
        len(got) == len(set(got)) and lines[2] == b"NIL" and lines[3] == b"NIL" and \
        lines[4] == b"(%s %s)" % (SHIPPED[m][-1].encode(), SHIPPED[m][0].encode())
    return m, v, "\n".join(text), res.out if ok else b"<the list of all names, twice; NIL; NIL; the two names>", res, None


def verdict(kind, i, v, text, want, res):
    chk.saw(text)
    chk.count("runs:" + kind)
    if res.monitor():
        chk.violation("%s: %s" % (kind, res.monitor()), "case %s variant %s\n%s" % (
            i, v, res.err[-3000:].decode("latin-1")), text)
    elif res.timeout:
        chk.violation(kind + ": hang", "case %s variant %s" % (i, v), text)
    elif res.out != want:
        a, b = want.split(b"\n"), res.out.split(b"\n")
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        chk.violation(kind + ": differs from the simulation", "case %s variant %s, line %d\n-- expected --\n%s\n"
                      "-- got --\n%s\n-- stderr --\n%s" % (
                          i, v, k, b"\n".join(a[max(0, k - 8):k + 8]).decode("latin-1"),
                          b"\n".join(b[max(0, k - 8):k + 8]).decode("latin-1"), res.err[-1500:].decode("latin-1")), text)
    elif res.rc != 0 or (res.stats and res.live() != 0):
        chk.violation("%s: cells not released (rc=%s live=%s)" % (kind, res.rc, res.live()), "variant " + v, text)


for i, v, text, want, res, t in H.pmap(run_a, range(chk.n(4000, 40000))):
    if res is None:
        chk.count("A:skipped")
        continue
    chk.count("A:files_loaded", t.loads)
    chk.count("A:loads_failing", t.missing)
    chk.count("A:names_searched_in_several", t.searched)
    if t.loads > 5:
        chk.sample(text, 2)
    verdict("A", i, v, text, want, res)
    if chk.too_many():
        break

jobs = [(m, s) for m, ss in SHIPPED.items() for s in ss if s not in DEFAULT]
for i, v, text, want, res, _ in H.pmap(run_c, jobs):
    verdict("C", i, v, text, want, res)
for i, v, text, want, res, _ in H.pmap(run_c2, list(SHIPPED)):
    verdict("C2", i, v, text, want, res)

with H.Scratch() as root:
    try:
        libs = build_modules(root)
    except B.BuildError as e:
        print("BUILD-ERROR modules: %s" % e)
        chk.evidence("modules do not build")
        sys.exit(2)
    for i, v, text, want, res, _ in H.pmap(lambda k: run_b(k, libs), range(chk.n(1500, 15000))):
        if i < 2:
            chk.sample(text, 4)
        verdict("B", i, v, text, want, res)
        if chk.too_many():
            break
chk.finish(minimum=chk.n(500, 5000))
