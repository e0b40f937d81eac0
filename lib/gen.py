"""Random program generator.  Programs are typed just enough to stay in the
specified part of the language; the model (model.py) has the last word and a
case it cannot give a meaning to is dropped."""

EDGE = [0, 1, -1, 2, 3, 7, 10, 100, 255, 256, -128, 127, 65535, 1 << 31, -(1 << 31), (1 << 31) - 1,
        1 << 32, (1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 1000003]
SYMS = ["a", "b", "foo", "bar", "x-y", "k1", "sixteen_chars_ab", "sixteen_chars_ac", "+x", "p?", "q!", "n.m",
        "<a>", "a:b", "B", "Nil", "nil", "t", "TT", "NILx", "__", "*", "\\z", "|x|", "a.b,c", "{y}", "[z]"]
SAFECH = [c for c in map(chr, range(33, 127)) if c not in "\"\\"]


class G:
    def __init__(self, rng, prefix="p", weights=None):
        self.r = rng
        self.p = prefix
        self.k = 0
        self.funs = []        # (name, argtypes, ret)
        self.gvars = []       # (name, type)
        self.w = dict(effect=1, closure=1, partial=1, library=1, match=1, loop=1, string=1, mutate=1, conc=1)
        self.w.update(weights or {})
        self.hostile = 0.0    # chance of an expression of another type

    # -- names
    def fresh(self, base="v"):
        self.k += 1
        # shadow now and then
        if base == "v" and self.r.random() < 0.25:
            return "v%d" % self.r.randrange(1, max(2, min(6, self.k)))
        return "%s%d" % (base, self.k)

    def gname(self, base="g"):
        self.k += 1
        return "%s:%s%d" % (self.p, base, self.k)

    def chance(self, p):
        return self.r.random() < p

    # -- literals
    def num(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return str(r.randrange(-9, 30))
        if x < 0.9:
            return str(r.choice(EDGE))
        return str(r.randrange(-(1 << 63), 1 << 63))

    def small(self):
        return str(self.r.randrange(0, 6))

    def char(self):
        return "^" + self.r.choice(SAFECH + ["\\n", "\\t", "\\\\", "\\r", "\\e"])

    def string(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 20])
        return '"' + "".join(r.choice(SAFECH + [" ", "\\n", "\\t", "\\\\", "\\\""]) for _ in range(n)) + '"'

    def symbol(self):
        return self.r.choice(SYMS)

    def datum(self, d):
        """Text of a datum (no evaluation)."""
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.55:
            return r.choice([self.num, self.num, self.char, self.symbol, self.symbol, lambda: "NIL", lambda: "T",
                             lambda: "_", self.string, lambda: "()"])()
        n = r.choice([1, 1, 2, 2, 3, 4])
        items = [self.datum(d - 1) for _ in range(n)]
        if r.random() < 0.25:
            return "(%s . %s)" % (" ".join(items), self.datum(d - 1))
        return "(%s)" % " ".join(items)

    # -- expressions
    def vars(self, env, t):
        out = [n for n, ty in visible(env).items() if ty == t]
        out += [n for n, ty in self.gvars if ty == t]
        return out

    def expr(self, t, env, d):
        r = self.r
        if self.hostile and r.random() < self.hostile:
            t = self.anytype()
        vs = self.vars(env, t)
        if vs and r.random() < (0.7 if d <= 0 else 0.25):
            return r.choice(vs)
        if d <= 0:
            return self.leaf(t, env)
        w = self.w
        opts = [(2, self.e_if), (1.5, self.e_let), (0.8, self.e_apply), (0.8, self.e_cond),
                (0.8 * w["match"], self.e_match), (0.6 * w["effect"], self.e_effect), (0.7, self.e_when),
                (0.5 * w["partial"], self.e_stream), (0.5 * w["closure"], self.e_counter),
                (0.5 * w["partial"], self.e_partial), (0.4, self.e_destruct), (0.3, self.e_evalq),
                (0.3 * w["closure"], self.e_hof)]
        if self.funs:
            opts.append((2, self.e_call))
        if t == "num":
            opts += [(5, self.n_arith), (1, self.n_len), (0.6 * w["loop"], self.n_while),
                     (0.8 * w["library"], self.n_fold)]
        elif t == "bool":
            opts += [(4, self.b_cmp), (3, self.b_pred), (2, self.b_logic)]
        elif t == "list":
            opts += [(2, self.l_list), (1.5, self.l_cons), (1.5 * w["library"], self.l_lib), (1, self.l_quote),
                     (0.6 * w["conc"], self.l_conc)]
        elif t == "str":
            opts += [(3 * w["string"], self.s_lib)]
        elif t == "any":
            opts += [(2, self.a_other), (1, self.a_quote), (1, self.a_carcdr)]
        elif t == "sym":
            opts += [(1, self.y_sym)]
        tot = sum(x for x, _ in opts)
        p = r.random() * tot
        for x, f in opts:
            p -= x
            if p <= 0:
                return f(t, env, d)
        return self.leaf(t, env)

    def leaf(self, t, env):
        r = self.r
        if t == "num":
            return self.num()
        if t == "bool":
            return r.choice(["T", "NIL"])
        if t == "list":
            return r.choice(["NIL", "()", "'(%s)" % " ".join(self.num() for _ in range(r.randrange(1, 5))),
                             "(list %s)" % " ".join(self.num() for _ in range(r.randrange(1, 4)))])
        if t == "str":
            return self.string()
        if t == "sym":
            return "'" + self.symbol()
        return self.quoted(2)

    def quoted(self, d):
        x = self.datum(d)
        if x[0] in "(":
            return "'" + x
        if x[0] in "\"^":
            return x
        if x in ("NIL", "T", "_") or x.lstrip("-").isdigit():
            return x
        return "'" + x

    def anytype(self):
        return self.r.choice(["num", "num", "bool", "list", "str", "sym", "any"])

    # control
    def e_if(self, t, env, d):
        return "(if %s %s %s)" % (self.expr(self.anytype() if self.chance(0.3) else "bool", env, d - 1),
                                  self.expr(t, env, d - 1), self.expr(t, env, d - 1))

    def e_when(self, t, env, d):
        pre = [self.effect(env, d - 1) for _ in range(self.r.randrange(0, 2))]
        if t in ("any", "bool", "list") or self.chance(0.3):
            op = self.r.choice(["when", "unless"])
            c = self.expr("bool", env, d - 1)
            if t == "bool":
                return "(tru? (%s %s %s))" % (op, c, " ".join(pre + [self.expr(t, env, d - 1)]))
            if t in ("any", "list"):
                return "(%s %s %s)" % (op, c, " ".join(pre + [self.expr(t, env, d - 1)]))
        return "(prog %s)" % " ".join(pre + [self.expr(t, env, d - 1)])

    def e_let(self, t, env, d):
        n = self.r.choice([1, 1, 2, 3])
        env = list(env)
        bs = []
        used = set()
        for _ in range(n):
            ty = self.anytype()
            nm = self.fresh()
            while nm in used:
                nm = self.fresh("w")
            used.add(nm)
            bs.append("(%s . %s)" % (nm, self.expr(ty, env, d - 1)))
            env = env + [(nm, ty)]
        body = [self.effect(env, d - 1) for _ in range(self.r.randrange(0, 2))]
        return "(let (%s) %s)" % (" ".join(bs), " ".join(body + [self.expr(t, env, d - 1)]))

    def lam(self, tys, ret, env, d, doc=False):
        names = []
        for _ in tys:
            nm = self.fresh()
            while nm in names:
                nm = self.fresh("w")
            names.append(nm)
        e2 = list(env) + list(zip(names, tys))
        body = [self.effect(e2, d - 1) for _ in range(1 if self.chance(0.2) else 0)]
        return "(\\ (%s) %s)" % (" ".join(names), " ".join(body + [self.expr(ret, e2, d - 1)]))

    def e_apply(self, t, env, d):
        tys = [self.anytype() for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
        f = self.lam(tys, t, env, d - 1)
        args = [self.expr(ty, env, d - 2) for ty in tys]
        return self.spread(f, args)

    def spread(self, f, args):
        """Apply f to args in one or more steps (currying)."""
        if len(args) < 2 or not self.chance(0.35 * self.w["partial"]):
            return "(%s%s)" % (f, "".join(" " + a for a in args))
        cut = self.r.randrange(0, len(args))
        return self.spread_tail("(%s%s)" % (f, "".join(" " + a for a in args[:cut])), args[cut:])

    def spread_tail(self, f, args):
        if len(args) > 1 and self.chance(0.5):
            return self.spread_tail("(%s %s)" % (f, args[0]), args[1:])
        return "(%s %s)" % (f, " ".join(args))

    def e_call(self, t, env, d):
        fs = [f for f in self.funs if f[2] == t and f[0] not in dict(visible(env))]
        if not fs:
            return self.e_if(t, env, d)
        f = self.r.choice(fs)
        args = [self.small() if ty == "cnt" else self.expr(ty, env, d - 1) for ty in f[1]]
        return self.spread(f[0], args)

    def pred(self, ty, env, d):
        r = self.r
        opts = ["nil?", "num?", "lst?", "sym?", "str?", "chr?", "atm?", "tru?"]
        if ty == "num":
            op = r.choice(["=", "<", ">", "<=", ">=", "<>"])
            opts = opts + ["(%s %s)" % (op, self.expr("num", env, d - 1))] * 5
            opts.append(self.lam(["num"], "bool", env, d - 1))
        return r.choice(opts)

    def e_cond(self, t, env, d):
        ty = self.anytype()
        cl = ["(%s . %s)" % (self.pred(ty, env, d - 1), self.expr(t, env, d - 1))
              for _ in range(self.r.randrange(1, 4))]
        if t not in ("any", "bool", "list") or self.chance(0.8):
            cl.append("(_ . %s)" % self.expr(t, env, d - 1))
        return "(cond %s %s)" % (self.expr(ty, env, d - 1), " ".join(cl))

    def pattern(self, datum_d=2):
        """A pattern and how many wildcards it has."""
        r = self.r
        if r.random() < 0.35:
            return "_"
        if datum_d <= 0 or r.random() < 0.5:
            return self.datum(0)
        n = r.choice([1, 2, 3])
        items = [self.pattern(datum_d - 1) for _ in range(n)]
        if r.random() < 0.3:
            return "(%s . %s)" % (" ".join(items), self.pattern(datum_d - 1))
        return "(%s)" % " ".join(items)

    def wildify(self, text):
        """Replace some atoms of a datum by wildcards: a pattern likely to match."""
        import model
        try:
            x = model.read_all(text)[0]
        except Exception:
            return text

        def go(v):
            if self.chance(0.2):
                return model.WILD
            if isinstance(v, model.Pair):
                return model.Pair(go(v.car), go(v.cdr))
            if self.chance(0.06):
                return model.sym("zz")
            return v
        v = go(x)
        return model.show(v).decode("latin-1")

    def e_match(self, t, env, d):
        r = self.r
        if r.random() < 0.6:
            dat = self.datum(3)
            subj = "'" + dat if dat[0] not in "\"^TN_0123456789-" else dat
            if dat[0] == "-" and not dat.lstrip("-").isdigit():
                subj = "'" + dat
            pats = [self.wildify(dat) if self.chance(0.6) else self.pattern() for _ in range(r.randrange(1, 4))]
        else:
            subj = self.expr(self.anytype(), env, d - 1)
            pats = [self.pattern() for _ in range(r.randrange(1, 4))]
        pats = [p for p in pats if p and not p.startswith("^ ")]
        cl = ["(%s . %s)" % (p, self.expr(t, env, d - 1)) for p in pats]
        if t not in ("any", "bool", "list") or self.chance(0.8):
            cl.append("(_ . %s)" % self.expr(t, env, d - 1))
        return "(match %s %s)" % (subj, " ".join(cl))

    def e_effect(self, t, env, d):
        return "(prog %s %s)" % (self.effect(env, d - 1), self.expr(t, env, d - 1))

    def effect(self, env, d):
        r = self.r
        x = r.random()
        if x < 0.5 or not self.gvars:
            op = r.choice(["prin", "print", "printl", "prinl", "prin", "print"])
            return "(%s %s)" % (op, " ".join(self.expr(self.anytype(), env, d - 1)
                                            for _ in range(r.choice([1, 1, 2]))))
        name, ty = r.choice(self.gvars)
        if x < 0.75 and name not in visible(env):
            return "(<- '%s %s)" % (name, self.expr(ty, env, d - 1))
        loc = [(n, t) for n, t in visible(env).items() if t not in ("fun", "ro")]
        if loc and x < 0.9:
            n, t = r.choice(loc)
            return "(<- '%s %s)" % (n, self.expr(t, env, d - 1))
        return "(setq %s %s)" % (name, self.expr(ty, env, d - 1))

    def e_stream(self, t, env, d):
        ty = self.anytype()
        cur = self.expr(ty, env, d - 1)
        steps = []
        for _ in range(self.r.randrange(0, 2)):
            nt = self.anytype()
            steps.append(self.lam([ty], nt, env, d - 2))
            ty = nt
        if ty == "num" and t == "num":
            steps.append("(%s %s)" % (self.r.choice(["+", "-", "*"]), self.expr("num", env, d - 2)))
        elif ty == "list" and t == "list":
            steps.append(self.r.choice(["rev", "(map (+ 1))", "(cons %s)" % self.expr("num", env, d - 2)]))
        else:
            steps.append(self.lam([ty], t, env, d - 1))
        return "(|> %s %s)" % (cur, " ".join(steps))

    def e_counter(self, t, env, d):
        """A stateful closure called several times."""
        c, f = self.fresh("c"), self.fresh("f")
        init = self.num()
        step = self.expr("num", env + [(c, "num")], d - 2)
        calls = " ".join("(%s)" % f for _ in range(self.r.randrange(1, 3)))
        e2 = env + [(c, "num")]
        return "(let ((%s . %s) (%s . (\\ () (<- '%s (+ %s %s)) %s))) %s %s)" % (
            c, init, f, c, c, step, c, calls, self.expr(t, e2, d - 1))

    def e_partial(self, t, env, d):
        """Store a partial application, call it more than once."""
        f = self.fresh("f")
        tys = [self.anytype() for _ in range(self.r.choice([2, 3]))]
        base = self.lam(tys, t, env, d - 1)
        cands = [x for x in self.funs if x[2] == t and len(x[1]) >= 2]
        if cands and self.chance(0.5):
            x = self.r.choice(cands)
            base, tys = x[0], x[1]
        k = self.r.randrange(1, len(tys))
        mk = lambda ty, e: self.small() if ty == "cnt" else self.expr(ty, e, d - 2)
        first = " ".join(mk(ty, env) for ty in tys[:k])
        rest = lambda: " ".join(mk(ty, env) for ty in tys[k:])
        return "(let ((%s . (%s %s))) (%s %s) (%s %s))" % (f, base, first, f, rest(), f, rest())

    def e_destruct(self, t, env, d):
        """Deconstruction in let or in arguments."""
        names = []
        for _ in range(self.r.choice([2, 3])):
            nm = self.fresh("d")
            names.append(nm)
        vals = [self.expr("num", env, d - 2) for _ in names]
        shape = self.r.randrange(5)
        e2 = env + [(n, "num") for n in names]
        if shape == 0:
            pat, val = "(%s)" % " ".join(names), "(list %s)" % " ".join(vals)
        elif shape == 1:
            pat = "(%s . %s)" % (" ".join(names[:-1]), names[-1])
            val = vals[-1]
            for v in reversed(vals[:-1]):
                val = "(cons %s %s)" % (v, val)
        elif shape == 2:
            pat = "((%s) %s)" % (names[0], " ".join(names[1:]))
            val = "(list (list %s) %s)" % (vals[0], " ".join(vals[1:]))
        elif shape == 3:
            pat = "(_ %s . _)" % " ".join(names)
            val = "(list %s %s 1 2)" % (self.expr("any", env, d - 2), " ".join(vals))
        else:
            pat = "(%s (_ . %s))" % (names[0], " ".join(names[1:2]))
            val = "(list %s (cons 0 %s))" % (vals[0], vals[1])
            e2 = env + [(n, "num") for n in names[:2]]
        body = self.expr(t, e2, d - 1)
        if self.chance(0.5):
            return "(let ((%s . %s)) %s)" % (pat, val, body)
        return "((\\ (%s) %s) %s)" % (pat, body, val)

    def e_evalq(self, t, env, d):
        x = self.expr(t, env, d - 1)
        if x.startswith("("):
            return "(eval '%s)" % x
        return x

    def e_hof(self, t, env, d):
        f, a = self.fresh("h"), self.fresh()
        ty = self.anytype()
        return "((\\ (%s %s) (%s %s)) %s %s)" % (f, a, f, a, self.lam([ty], t, env, d - 1),
                                              self.expr(ty, env, d - 1))

    # num
    def n_arith(self, t, env, d):
        r = self.r
        op = r.choice("+++---**/%")
        if op in "/%":
            den = r.choice(["2", "3", "-1", "7", "-5", "10", "1000", str(-(1 << 63))])
            return "(%s %s %s)" % (op, self.expr("num", env, d - 1), den)
        a, b = self.expr("num", env, d - 1), self.expr("num", env, d - 1)
        return self.spread(op, [a, b])

    def n_len(self, t, env, d):
        return "(len %s)" % self.expr(self.r.choice(["list", "str"]), env, d - 1)

    def n_while(self, t, env, d):
        i, s = self.fresh("i"), self.fresh("s")
        e2 = env + [(s, "num")]
        return "(let ((%s . %s) (%s . %s)) (while (> %s 0) (<- '%s %s) (<- '%s (- %s 1))) %s)" % (
            i, self.small(), s, self.num(), i, s, self.expr("num", e2 + [(i, "ro")], d - 2), i, i, s)

    def n_fold(self, t, env, d):
        f = self.lam(["num", "num"], "num", env, d - 2)
        if self.chance(0.4):
            f = self.r.choice(["+", "-", "*"])
        if self.chance(0.5):
            return "(foldl %s %s %s)" % (f, self.expr("num", env, d - 2), self.expr("list", env, d - 1))
        return "(foldr %s %s %s)" % (f, self.expr("list", env, d - 1), self.expr("num", env, d - 2))

    # bool
    def b_cmp(self, t, env, d):
        r = self.r
        op = r.choice(["<", ">", "<=", ">="])
        if r.random() < 0.5:
            return self.spread(op, [self.expr("num", env, d - 1), self.expr("num", env, d - 1)])
        op = r.choice(["=", "<>"])
        ty = self.anytype()
        ty2 = ty if r.random() < 0.7 else self.anytype()
        a = self.expr(ty, env, d - 1)
        b = a if r.random() < 0.2 else self.expr(ty2, env, d - 1)
        return self.spread(op, [a, b])

    def b_pred(self, t, env, d):
        p = self.r.choice(["nil?", "num?", "lst?", "sym?", "str?", "chr?", "atm?", "tru?", "not"])
        return "(%s %s)" % (p, self.expr(self.anytype(), env, d - 1))

    def b_logic(self, t, env, d):
        op = self.r.choice(["and", "or"])
        return "(%s %s %s)" % (op, self.expr(self.r.choice(["bool", "any"]), env, d - 1),
                               self.expr("bool", env, d - 1))

    # list
    def l_list(self, t, env, d):
        return "(list %s)" % " ".join(self.expr("num", env, d - 1) for _ in range(self.r.randrange(1, 4)))

    def l_cons(self, t, env, d):
        return self.spread("cons", [self.expr("num", env, d - 1), self.expr("list", env, d - 1)])

    def l_quote(self, t, env, d):
        return "'(%s)" % " ".join(self.num() for _ in range(self.r.randrange(1, 6)))

    def l_conc(self, t, env, d):
        return "(conc (list %s) %s)" % (" ".join(self.expr("num", env, d - 2) for _ in range(self.r.randrange(1, 3))),
                                        self.expr("list", env, d - 1))

    def l_lib(self, t, env, d):
        r = self.r
        l = self.expr("list", env, d - 1)
        k = r.randrange(7)
        if k == 0:
            return "(rev %s)" % l
        if k == 1:
            return "(map %s %s)" % (self.lam(["num"], "num", env, d - 2), l)
        if k == 2:
            return "(filter %s %s)" % (self.lam(["num"], "bool", env, d - 2), l)
        if k == 3:
            return "(append %s %s)" % (l, " ".join(self.expr("list", env, d - 2) for _ in range(r.randrange(1, 3))))
        if k == 4:
            return "(map2 %s %s %s)" % (self.lam(["num", "num"], "num", env, d - 2), l, self.expr("list", env, d - 2))
        if k == 5:
            return "(map (%s %s) %s)" % (r.choice(["+", "*", "-"]), self.expr("num", env, d - 2), l)
        return "(cdr %s)" % l

    # str
    def s_lib(self, t, env, d):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            return "(append %s %s)" % (self.expr("str", env, d - 1), self.expr("str", env, d - 1))
        if k == 1:
            return "(str %s)" % self.expr("sym", env, d - 1)
        return "(rev %s)" % self.expr("str", env, d - 1)

    def y_sym(self, t, env, d):
        return "(sym \"%s\")" % self.r.choice(["abc", "q", "x1", "hello-world", "more-than-sixteen-characters"])

    def a_other(self, t, env, d):
        return self.expr(self.r.choice(["num", "bool", "list", "str", "sym"]), env, d - 1)

    def a_quote(self, t, env, d):
        return self.quoted(3)

    def a_carcdr(self, t, env, d):
        return "(%s %s)" % (self.r.choice(["car", "cdr"]), self.expr(self.r.choice(["any", "list", "str"]), env, d - 1))

    # -- top level
    def recursion(self, d):
        """A terminating recursive function of a counter."""
        r = self.r
        name = self.gname("f")
        k = r.randrange(9)
        n, a = self.fresh("n"), self.fresh("a")
        env = [(n, "num"), (a, "num")]
        e = lambda: self.expr("num", env, d)
        if k == 0:
            body = "(if (<= %s 0) %s (%s (- %s 1) %s))" % (n, a, name, n, e())
        elif k == 1:
            body = "(if (<= %s 0) %s (+ %s (%s (- %s 1) %s)))" % (n, a, e(), name, n, e())
        elif k == 2:
            body = "(cond %s ((>= 0) . %s) (_ . (%s (- %s 1) %s)))" % (n, a, name, n, e())
        elif k == 3:
            body = "(prog %s (if (> %s 0) (%s (- %s 1) %s) %s))" % (self.effect(env, d), n, name, n, e(), a)
        elif k == 4:
            body = "(match %s (0 . %s) (_ . (%s (- %s 1) %s)))" % (n, a, name, n, e())
        elif k == 5:
            body = "(let ((%s . %s)) (if (<= %s 0) %s (%s (- %s 1) %s)))" % ("u" + n, e(), n, a, name, n, e())
        elif k == 6:
            body = "(if (<= %s 0) %s (let ((m . (- %s 1))) (%s m %s)))" % (n, a, n, name, e())
        elif k == 7:
            body = "(if (<= %s 0) %s ((%s (- %s 1)) %s))" % (n, a, name, n, e())
        else:
            body = "(if (<= %s 0) %s (foldl (\\ (x y) (+ x (%s (- %s 1) y))) %s (list 1)))" % (n, a, name, n, e())
        doc = '"doc string" ' if r.random() < 0.3 else ""
        self.funs.append((name, ["cnt", "num"], "num"))
        return "(def %s (%s %s) %s%s)" % (name, n, a, doc, body)

    def mutual(self, d):
        f, g = self.gname("f"), self.gname("g")
        env = [("n", "num"), ("a", "num")]
        e = lambda: self.expr("num", env, d)
        t1 = "(def %s (n a) (if (<= n 0) a (%s (- n 1) %s)))" % (f, g, e())
        t2 = "(def %s (n a) (if (<= n 0) (- 0 a) (%s (- n 1) %s)))" % (g, f, e())
        self.funs.append((f, ["cnt", "num"], "num"))
        self.funs.append((g, ["cnt", "num"], "num"))
        return [t1, t2]

    def define(self, d):
        name = self.gname("f")
        tys = [self.anytype() for _ in range(self.r.choice([0, 1, 2, 2, 3]))]
        ret = self.r.choice(["num", "bool", "list", "str", "any"])
        names = []
        for _ in tys:
            nm = self.fresh()
            while nm in names:
                nm = self.fresh("w")
            names.append(nm)
        env = list(zip(names, tys))
        body = [self.effect(env, d - 1) for _ in range(1 if self.chance(0.3) else 0)]
        body.append(self.expr(ret, env, d))
        doc = '"doc" ' if self.chance(0.2) else ""
        self.funs.append((name, tys, ret))
        return "(def %s (%s) %s%s)" % (name, " ".join(names), doc, " ".join(body))

    def variadic(self, d):
        name = self.gname("v")
        x = self.fresh()
        self.k += 1
        t = "(def %s (%s . rest) (cons %s (map eval rest)))" % (name, x, x)
        call = "(%s %s)" % (name, " ".join(self.expr("num", [], d - 1) for _ in range(self.r.randrange(1, 5))))
        return [t, call]

    def setq(self, d):
        name = self.gname("g")
        ty = self.r.choice(["num", "list", "str", "sym"])
        x = self.expr(ty, [], d)
        lit = {"num": "1", "list": "'(1 2)", "str": '"s"', "sym": "'k"}[ty]
        t = "(setq %s %s)" % (name, lit)
        self.gvars.append((name, ty))
        return [t, "(<- '%s %s)" % (name, x)]

    def hostile_program(self, d=4):
        """Types do not match; no loops or recursion, so that it ends."""
        self.hostile = 0.25
        self.w["loop"] = 0
        out = []
        for _ in range(self.r.randrange(0, 3)):
            out += self.setq(2)
        for _ in range(self.r.randrange(0, 3)):
            out.append(self.define(d))
        for _ in range(self.r.randrange(2, 6)):
            out.append(self.expr(self.anytype(), [], d))
        return out

    def program(self, d=4, n=None):
        r = self.r
        out = []
        for _ in range(r.randrange(0, 3)):
            out += self.setq(2)
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < 0.35:
                out.append(self.recursion(d - 2))
            elif x < 0.45:
                out += self.mutual(d - 2)
            elif x < 0.55:
                out += self.variadic(d - 2)
            else:
                out.append(self.define(d))
        for _ in range(n if n is not None else r.randrange(2, 6)):
            out.append(self.expr(self.anytype(), [], d))
        return out


def visible(env):
    v = {}
    for n, t in env:
        v[n] = t
    return v
