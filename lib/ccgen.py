"""Random functions of the subset the transpiler supports, and calls of them.

Types: N a number, L a tree of pairs with NIL leaves (so that car and cdr are
always defined), F a callback taking one tree, G a callback taking two.
"""
import model as M


class Fun:
    def __init__(self, name, params, ret, text, rec):
        self.name, self.params, self.ret, self.text, self.rec = name, params, ret, text, rec


def supported(f):
    """Inside the part of the language the transpiler supports: at most four
    parameters, all used as arguments of other functions, a body
    that is a call, no variable twice in one call of another function."""
    body = M.read_all(f.text)[0]
    body = M.to_list(body)[3]
    if not isinstance(body, M.Pair) or len(f.params) > 4:
        return False
    used = set()
    ok = [True]
    prim = set("+ - * / < <= > >= = <> and or not car cdr cons conc nil? lst? if when unless".split())

    def walk(x, tail=False):
        if not isinstance(x, M.Pair):
            if isinstance(x, M.Sym):
                if not tail:
                    used.add(x.name)
                elif f.ret == "N":
                    ok[0] = False           # its type is found too late
            return
        xs = M.to_list(x)
        op = xs[0].name
        args = xs[1:]
        if op == f.name:
            for a in args:
                if isinstance(a, M.Pair):
                    walk(a)
            return
        if op not in prim:
            used.add(op)
            vs = [a.name for a in args if isinstance(a, M.Sym)]
            if len(vs) != len(set(vs)):
                ok[0] = False
        for k, a in enumerate(args):
            walk(a, tail and op in ("if", "when", "unless") and k > 0)
    walk(body, True)
    return ok[0] and all(n in used for n, _ in f.params)


class Gen:
    def __init__(self, r):
        self.r = r
        self.funs = []

    def pick(self, t, env):
        return [n for n, k in env if k == t]

    def num(self, env, d):
        r = self.r
        vs = self.pick("N", env)
        if d <= 0 or r.random() < 0.25:
            return r.choice(vs)
        x = r.random()
        if x < 0.85 or not self.callable("N", env):
            op = r.choice(["+", "-", "*", "+", "-"])
            a, b = self.num(env, d - 1), self.num(env, d - 1)
            if r.random() < 0.3:
                if r.random() < 0.2:
                    op, b = "/", str(r.choice([2, 3, 10]))
                elif r.random() < 0.5:
                    a = str(r.choice([1, 2, 3, 7, 10]))
                else:
                    b = str(r.choice([1, 2, 3, 7, 10]))
            return "(%s %s %s)" % (op, a, b)
        return self.call("N", env, d)

    def tree(self, env, d):
        r = self.r
        vs = self.pick("L", env)
        if d <= 0 or r.random() < 0.2:
            return r.choice(vs)
        x = r.random()
        if x < 0.3:
            return "(%s %s)" % (r.choice(["car", "cdr"]), self.tree(env, d - 1))
        if x < 0.6:
            return "(cons %s %s)" % (self.tree(env, d - 1), self.tree(env, d - 1))
        fs = self.pick("F", env)
        gs = self.pick("G", env)
        if x < 0.75 and fs:
            return "(%s %s)" % (r.choice(fs), self.tree(env, d - 1))
        if x < 0.9 and gs:
            return "(%s %s %s)" % (r.choice(gs), self.tree(env, d - 1), self.tree(env, d - 1))
        if self.callable("L", env):
            return self.call("L", env, d)
        return r.choice(vs)

    def callable(self, t, env):
        have = {k for _, k in env}
        return [f for f in self.funs if f.ret == t and {k for _, k in f.params} <= have]

    def call(self, t, env, d):
        f = self.r.choice(self.callable(t, env))
        return "(%s %s)" % (f.name, " ".join(self.expr(k, env, min(d - 1, 1)) for _, k in f.params))

    def expr(self, t, env, d):
        if t == "N":
            return self.num(env, d)
        if t == "L":
            return self.tree(env, d)
        return self.r.choice(self.pick(t, env))

    def cond(self, env, d):
        r = self.r
        have = {k for _, k in env}
        x = r.random()
        if d > 0 and x < 0.15:
            if r.random() < 0.5:
                return "(and %s %s)" % (self.cond(env, d - 1), self.cond(env, d - 1))
            # compiled, both operands of or are evaluated (a known finding): nothing to see in the second one here
            funs, self.funs = self.funs, []
            b = self.cond([(n, k) for n, k in env if k in "NL"], d - 1)
            self.funs = funs
            return "(or %s %s)" % (self.cond(env, d - 1), b)
        if d > 0 and x < 0.25:
            return "(not %s)" % self.cond(env, d - 1)
        if "N" in have and ("L" not in have or r.random() < 0.5):
            op = r.choice(["<", "<=", ">", ">="])
            b = str(r.choice([0, 1, 2, 5])) if r.random() < 0.4 else self.num(env, 1)
            return "(%s %s %s)" % (op, self.num(env, 1), b)
        if r.random() < 0.2:
            a = "(%s %s)" % (r.choice(["car", "cdr"]), self.tree(env, 1))     # its type is known
            return "(%s %s %s)" % (r.choice(["=", "<>"]), a, self.tree(env, 1))
        return "(%s %s)" % (r.choice(["nil?", "nil?", "lst?"]), self.tree(env, 1))

    def tail(self, t, env, d, leaf):
        """An expression in tail position; leaf(env) gives its ends."""
        r = self.r
        if d > 0 and r.random() < 0.45:
            c = self.cond(env, 1)
            if t == "L" and r.random() < 0.3:
                return "(%s %s %s)" % (r.choice(["when", "unless", "if"]), c, self.tail(t, env, d - 1, leaf))
            return "(if %s %s %s)" % (c, self.tail(t, env, d - 1, leaf), self.tail(t, env, d - 1, leaf))
        return leaf(env)

    def fun(self, name):
        while True:
            f = self.fun1(name)
            if supported(f):
                return f

    def fun1(self, name):
        r = self.r
        kind = r.choice(["plain", "plain", "list", "list", "list", "num"])
        ret = r.choice("LLLN")
        ps = []
        if kind == "list":
            ps.append("L")
        if kind == "num":
            ps.append("N")
        for _ in range(r.choice([0, 1, 1, 2])):
            ps.append(r.choice("LLLNNFFG"))
        if ret not in ps:
            ps.append(ret)
        if "L" not in ps and r.random() < 0.5:
            ps.append("L")
        lead = ps[0] if kind != "plain" else None
        order = list(range(len(ps)))
        r.shuffle(order)
        names = "abcdehkm"
        params = [(names[j], ps[i]) for j, i in enumerate(order)]
        env = params
        if kind == "plain":
            body = self.tail(ret, env, 2, lambda e: self.expr(ret, e, r.choice([1, 2, 3])))
            return Fun(name, params, ret, "(def %s (%s) %s)" % (name, " ".join(n for n, _ in params), body), kind)
        me = params[order.index(0)][0]
        step = "(cdr %s)" % me if kind == "list" else "(- %s %d)" % (me, r.choice([1, 1, 2]))

        def rec(e):
            return "(%s %s)" % (name, " ".join(
                step if n == me else (n if r.random() < 0.7 or k in "FG" else self.expr(k, e, 1)) for n, k in params))

        def leaf(e):
            x = r.random()
            if x < 0.25:
                return rec(e)
            if x < 0.35:
                return self.expr(ret, e, 2)
            if ret == "N":
                a = rec(e)
                b = self.num(e, 1)
                return "(%s %s)" % (r.choice("+-*"), " ".join(r.choice([(a, b), (b, a)])))
            ops = ["cons", "cons", "car"]
            fs, gs = self.pick("F", e), self.pick("G", e)
            if fs:
                ops.append("F")
            if gs:
                ops += ["G", "G"]
            o = r.choice(ops)
            if o == "car":
                return "(%s %s)" % (r.choice(["car", "cdr"]), rec(e))
            if o == "F":
                return "(%s %s)" % (r.choice(fs), rec(e))
            pair = [rec(e), self.tree(e, 2)]
            r.shuffle(pair)
            return "(%s %s %s)" % ("cons" if o == "cons" else r.choice(gs), pair[0], pair[1])
        guard = "(nil? %s)" % me if kind == "list" else "(<= %s %s)" % (me, r.choice("0012"))
        base = self.expr(ret, env, r.choice([0, 0, 1, 2]))
        stp = self.tail(ret, env, 1, leaf)
        x = r.random()
        if x < 0.7:
            body = "(if %s %s %s)" % (guard, base, stp)
        elif ret == "L" and x < 0.85:
            body = "(unless %s %s)" % (guard, stp)
        elif kind == "num":
            body = "(if (> %s 0) %s %s)" % (me, stp, base)
        else:
            body = "(if (not %s) %s %s)" % (guard, stp, base)
        return Fun(name, params, ret, "(def %s (%s) %s)" % (name, " ".join(n for n, _ in params), body), kind)

    def value(self, t):
        r = self.r
        if t == "N":
            return str(r.choice([0, 1, 2, 3, 5, 4, 7, -1, -2, 12]))
        if t == "L":
            return "(car '(%s))" % M.show(self.shape(r.choice([0, 1, 2, 3]))).decode()
        tr = '(prin "<") ' if r.random() < 0.4 else ""
        if t == "F":
            b = r.choice(["(cons x0 NIL)", "(cdr x0)", "x0", "(list x0 x0)", "NIL", "(rev0 x0)"])
            if tr:
                tr = '(print x0) (prin "~") '
            return r.choice(["(\\ (x0) %s%s)" % (tr, b)] * 4 + ["(cons NIL)", "cdr", "car"])
        b = r.choice(["(cons x0 y0)", "x0", "y0", "(list y0 x0)", "NIL", "(cons y0 x0)"])
        if tr:
            tr = '(print x0 y0) (prin "~") '
        return r.choice(["(\\ (x0 y0) %s%s)" % (tr, b)] * 4 + ["cons"])

    def shape(self, d):
        r = self.r
        if d <= 0:
            return M.NIL
        return M.from_list([self.shape(d - 1 - r.randrange(2)) for _ in range(r.choice([0, 1, 2, 3, 5]))])

    def callof(self, f, depth=1):
        r = self.r
        args = []
        for _, t in f.params:
            if t == "F" and depth and r.random() < 0.35:
                # a callback that calls compiled functions
                gs = [g for g in self.funs if g.ret == "L" and [k for _, k in g.params].count("L")]
                if gs:
                    g = r.choice(gs)
                    i = r.choice([j for j, (_, k) in enumerate(g.params) if k == "L"])
                    sub = [("x0" if j == i else self.value(k)) for j, (_, k) in enumerate(g.params)]
                    args.append("(\\ (x0) (%s %s))" % (g.name, " ".join(sub)))
                    continue
            args.append(self.value(t))
        if len(args) > 1 and r.random() < 0.35:     # in any grouping
            e, k = f.name, 0
            while k < len(args):
                n = r.choice([1, 1, 2, len(args)])
                e = "(%s %s)" % (e, " ".join(args[k:k + n]))
                k += n
            return e
        return "(%s %s)" % (f.name, " ".join(args))
