"""Reference model of the Minima.l language: data, printer and evaluator.

The evaluator is written from docs/manual (Language.md, Reference.md) and keeps
the documented evaluation rules: dynamic call-site environment overridden by the
definition-site closure overridden by the arguments, currying, T/NIL truth,
destructuring, sequential let, destructive conc and <-.  It is the oracle of the
differential monitors: it never looks at the C sources.
"""
import sys
import threading

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    """The program leaves the specified part of the language."""


class Nil:
    __slots__ = ()

    def __repr__(self):
        return "NIL"


class True_:
    __slots__ = ()

    def __repr__(self):
        return "T"


class Wild:
    __slots__ = ()

    def __repr__(self):
        return "_"


NIL, T, WILD = Nil(), True_(), Wild()


class Sym:
    __slots__ = ("name",)
    table = {}

    def __repr__(self):
        return "Sym(%s)" % self.name


def sym(name):
    s = Sym.table.get(name)
    if s is None:
        s = Sym()
        s.name = name
        Sym.table[name] = s
    return s


class Char:
    __slots__ = ("v",)      # signed 8 bit value

    def __init__(self, v):
        v &= 0xFF
        self.v = v - 256 if v > 127 else v

    def __repr__(self):
        return "Char(%d)" % self.v


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, car, cdr):
        self.car = car
        self.cdr = cdr

    def __repr__(self):
        return show(self)


class Clos:
    """The closure part of a function value."""
    __slots__ = ("env",)

    def __init__(self, env):
        self.env = env      # lisp function: list of (name, Box); native: [values]


class Native:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


QUOTE = sym("quote")


def wrap64(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n


def from_list(xs, tail=NIL):
    r = tail
    for x in reversed(list(xs)):
        r = Pair(x, r)
    return r


def to_list(x):
    out = []
    while isinstance(x, Pair):
        out.append(x.car)
        x = x.cdr
    return out


def string(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return from_list([Char(b) for b in s])


def to_bytes(x):
    return bytes((c.v & 0xFF) for c in to_list(x))


def is_list(x):
    return x is NIL or isinstance(x, (Pair, Clos))


def is_string(x):
    while isinstance(x, Pair):
        if not isinstance(x.car, Char):
            return False
        x = x.cdr
    return x is NIL


def equ(a, b):
    while True:
        if isinstance(a, Pair) and isinstance(b, Pair):
            SPENT[0] += 1
            if SPENT[0] > LIMIT[1]:
                raise Unsupported("huge values compared")
            if not equ(a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
            continue
        if isinstance(a, (Clos, Native)) or isinstance(b, (Clos, Native)):
            raise Unsupported("function compared")
        if isinstance(a, Char) and isinstance(b, Char):
            return a.v == b.v
        if isinstance(a, bool) or isinstance(b, bool):
            raise AssertionError
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a is b


CHARNAMES = {27: b"\\e", 10: b"\\n", 13: b"\\r", 9: b"\\t", 92: b"\\\\"}


LIMIT = [2000000, 500000]      # pieces of one printed value; steps of one comparison
SPENT = [0]


def pr(x, s, out):
    if len(out) > LIMIT[0]:
        raise Unsupported("huge value printed")
    if x is NIL:
        if s:
            out.append(b"NIL")
    elif x is T:
        out.append(b"T")
    elif x is WILD:
        out.append(b"_")
    elif isinstance(x, Char):
        c = x.v & 0xFF
        if s:
            out.append(b"^" + CHARNAMES.get(c, bytes([c])))
        else:
            out.append(bytes([c]))
    elif isinstance(x, int):
        out.append(b"%d" % x)
    elif isinstance(x, Sym):
        out.append(x.name.encode("latin-1"))
    elif isinstance(x, Pair):
        if s:
            out.append(b"(")
        while True:
            pr(x.car, s, out)
            if isinstance(x.cdr, Pair):
                if s:
                    out.append(b" ")
                x = x.cdr
                continue
            if x.cdr is not NIL:
                if s:
                    out.append(b" . ")
                pr(x.cdr, s, out)
            break
        if s:
            out.append(b")")
    else:
        raise Unsupported("function printed")


def show(x):
    """The text of the quoted printer (print)."""
    out = []
    pr(x, True, out)
    return b"".join(out)


def plain(x):
    """The text of the unquoted printer (prin)."""
    out = []
    pr(x, False, out)
    return b"".join(out)


def show_clos(x):
    try:
        return show(x)
    except Unsupported:
        return b"<function>"


# ---------------------------------------------------------------- evaluator

class Interp:
    def __init__(self, steps=200000):
        self.globals = {}
        self.out = []
        self.steps = steps
        self.left = steps
        self.depth = 0
        self.maxdepth = 4000
        self.calls = {}
        self.natives()

    # -- helpers
    def defn(self, name, args, fn):
        f = Pair(args, Pair(Clos([]), Native(name, fn)))
        self.globals[name] = Box(f)

    def is_func(self, x):
        if not isinstance(x, Pair):
            return False
        if not (is_list(x.car) or isinstance(x.car, Sym)):
            return False
        r = x.cdr
        if not isinstance(r, Pair) or not is_list(r.car):
            return False
        b = r.cdr
        if not (isinstance(b, (Pair, int, Native))):
            return False
        if isinstance(r.car, Clos):
            return True
        if r.car is NIL and isinstance(b, Pair):
            return True         # what def makes; harmless
        raise Unsupported("hand-made function value")

    def lookup(self, env, name):
        b = env.get(name)
        if b is not None:
            return b.v
        b = self.globals.get(name)
        return NIL if b is None else b.v

    def bind(self, acc, pat, val):
        """Append (name, Box) to ACC in binding order."""
        while isinstance(pat, Pair):
            if isinstance(val, Pair):
                v, rest = val.car, val.cdr
            else:
                v, rest = NIL, NIL
            self.bind(acc, pat.car, v)
            pat, val = pat.cdr, rest
        if isinstance(pat, Sym):
            if isinstance(val, Clos):
                raise Unsupported("function taken apart")
            acc.append((pat.name, Box(val)))

    @staticmethod
    def merge(env, kvs):
        # kvs in binding order; the first binding of a name prevails
        for k, b in reversed(kvs):
            env[k] = b
        return env

    def may_apply(self, args, vals):
        while True:
            if args is NIL and vals is NIL:
                return True
            if isinstance(args, Sym):
                return True
            if args is not NIL and vals is NIL:
                return True
            if isinstance(args, Pair) and isinstance(vals, Pair):
                args, vals = args.cdr, vals.cdr
                continue
            return False

    def apply(self, env, func, vals):
        args = func.car
        if not self.may_apply(args, vals):
            return NIL
        clos, body = func.cdr.car, func.cdr.cdr
        bound = []
        native = isinstance(body, Native)
        nvals = []
        while True:
            if args is NIL:
                break
            if isinstance(args, Sym):
                bound.append((args.name, Box(vals)))
                nvals.append(vals)
                args = NIL
                break
            if vals is NIL:
                break
            v = self.eval(env, vals.car)
            if native:
                nvals.append(v)
            else:
                self.bind(bound, args.car, v)
            args, vals = args.cdr, vals.cdr
        cenv = clos.env if isinstance(clos, Clos) else []
        if args is NIL:
            if native:
                self.calls[body.name] = self.calls.get(body.name, 0) + 1
                return body.fn(env, *(cenv + nvals))
            e = dict(env)
            for k, b in cenv:
                e[k] = b
            self.merge(e, bound)
            r = NIL
            self.calls["<lisp>"] = self.calls.get("<lisp>", 0) + 1
            while isinstance(body, Pair):
                r = self.eval(e, body.car)
                body = body.cdr
            return r
        if native:
            return Pair(args, Pair(Clos(cenv + nvals), body))
        self.calls["<partial>"] = self.calls.get("<partial>", 0) + 1
        return Pair(args, Pair(Clos(cenv + list(reversed(bound))), body))

    def call(self, env, func, *vals):
        """Apply a function value to already evaluated values."""
        q = from_list([Pair(QUOTE, v) for v in vals])
        if not self.is_func(func):
            raise Unsupported("call of a non function")
        return self.apply(env, func, q)

    def eval(self, env, x):
        self.left -= 1
        if self.left < 0:
            raise Unsupported("too many steps")
        if isinstance(x, Pair):
            self.depth += 1
            if self.depth > self.maxdepth:
                self.depth = 0
                raise Unsupported("too deep")
            try:
                return self.eval_pair(env, x)
            finally:
                self.depth -= 1
        if isinstance(x, Sym):
            return self.lookup(env, x.name)
        return x

    def eval_pair(self, env, x):
        car, cdr = x.car, x.cdr
        nxt = self.eval(env, car)
        if isinstance(nxt, Pair) and self.is_func(nxt):
            return self.apply(env, nxt, cdr)
        if not isinstance(nxt, Clos) and equ(car, nxt):
            return Pair(nxt, cdr)
        if isinstance(nxt, (Sym, Pair)):
            return self.eval(env, Pair(nxt, cdr))
        return Pair(nxt, cdr)

    def prog(self, env, body):
        r = NIL
        while isinstance(body, Pair):
            r = self.eval(env, body.car)
            body = body.cdr
        return r

    def emit(self, b):
        self.out.append(b)

    def top(self, x):
        SPENT[0] = 0
        self.depth = 0
        self.left = self.steps
        return self.eval({}, x)

    # -- natives
    def natives(self):
        X = from_list([sym("X")])
        XY = from_list([sym("X"), sym("Y")])
        ANY = sym("ANY")
        CR = Pair(sym("COND"), sym("REM"))
        d = self.defn

        def b(v):
            return T if v else NIL

        def num(v):
            if isinstance(v, Char):
                return v.v
            if isinstance(v, int):
                return v
            raise Unsupported("number expected")

        def car(x):
            if isinstance(x, Pair):
                if isinstance(x.car, Clos):
                    raise Unsupported("function taken apart")
                return x.car
            return NIL

        def cdr(x):
            if isinstance(x, Pair):
                if isinstance(x.cdr, (Clos, Native)):
                    raise Unsupported("function taken apart")
                return x.cdr
            return NIL
        d("car", X, lambda e, x: car(x))
        d("cdr", X, lambda e, x: cdr(x))
        d("cons", XY, lambda e, x, y: Pair(x, y))

        def conc(e, x, y):
            if not isinstance(x, Pair):
                return y
            p = x
            while isinstance(p.cdr, Pair):
                p = p.cdr
            # refuse to make a cycle
            seen = set()
            st = [y]
            while st:
                c = st.pop()
                if isinstance(c, Pair) and id(c) not in seen:
                    if c is p:
                        raise Unsupported("cycle")
                    seen.add(id(c))
                    st.append(c.car)
                    st.append(c.cdr)
            p.cdr = y
            return x
        d("conc", XY, conc)
        d("chr", X, lambda e, x: Char(num(x)))
        d("eval", X, lambda e, x: self.eval(e, x))
        d("quote", ANY, lambda e, a: a)
        d("prog", ANY, lambda e, a: self.prog(e, a))
        d("list", ANY, self.n_list)
        d("if", CR, lambda e, c, r: self.eval(e, car(r) if c is not NIL else car(cdr(r))))
        d("when", CR, lambda e, c, r: self.prog(e, r) if c is not NIL else NIL)
        d("unless", CR, lambda e, c, r: self.prog(e, r) if c is NIL else NIL)
        d("while", ANY, self.n_while)
        d("cond", ANY, self.n_cond)
        d("match", ANY, self.n_match)
        d("let", ANY, self.n_let)
        d("\\", ANY, self.n_lambda)
        d("def", ANY, self.n_def)
        d("setq", ANY, self.n_setq)
        d("<-", ANY, self.n_set)
        d("load", ANY, self.n_load)
        d("|>", ANY, self.n_stream)

        def length(e, x):
            if not is_list(x):
                return NIL
            return len(to_list(x))
        d("len", X, length)
        d("atm?", X, lambda e, x: b(not is_list(x)))
        d("lst?", X, lambda e, x: b(is_list(x)))
        d("nil?", X, lambda e, x: b(x is NIL))
        d("tru?", X, lambda e, x: b(x is T))
        d("num?", X, lambda e, x: b(isinstance(x, int)))
        d("chr?", X, lambda e, x: b(isinstance(x, Char)))
        d("sym?", X, lambda e, x: b(isinstance(x, Sym)))
        d("str?", X, lambda e, x: b(is_string(x)))

        def n_sym(e, x):
            if not (isinstance(x, Pair) and is_string(x)):
                return NIL
            s = to_bytes(x)[:16].split(b"\0")[0]
            if not s:
                raise Unsupported("sym of NUL")
            return sym(s.decode("latin-1"))
        d("sym", X, n_sym)

        def n_str(e, x):
            if not isinstance(x, Sym):
                raise Unsupported("str of non symbol")
            return string(x.name)
        d("str", X, n_str)
        # logic
        d("and", XY, lambda e, x, y: b(x is not NIL and y is not NIL))

        def n_or(e, a):
            if self.eval(e, car(a)) is not NIL:
                return T
            return b(self.eval(e, car(cdr(a))) is not NIL)
        d("or", ANY, n_or)
        d("not", X, lambda e, x: b(x is NIL))
        def n_eq(e, x, y):
            SPENT[0] = 0
            return b(equ(x, y))
        d("=", XY, n_eq)

        def n_ne(e, x, y):
            SPENT[0] = 0
            return b(not equ(x, y))
        d("<>", XY, n_ne)
        # math
        d("+", XY, lambda e, x, y: wrap64(num(x) + num(y)))
        d("-", XY, lambda e, x, y: wrap64(num(x) - num(y)))
        d("*", XY, lambda e, x, y: wrap64(num(x) * num(y)))

        def div(e, x, y):
            x, y = num(x), num(y)
            if y == 0:
                return NIL
            q = abs(x) // abs(y)
            return wrap64(-q if (x < 0) != (y < 0) else q)

        def mod(e, x, y):
            x, y = num(x), num(y)
            if y == 0:
                return NIL
            r = abs(x) % abs(y)
            return -r if x < 0 else r
        d("/", XY, div)
        d("%", XY, mod)
        d("<", XY, lambda e, x, y: b(num(x) < num(y)))
        d(">", XY, lambda e, x, y: b(num(x) > num(y)))
        d("<=", XY, lambda e, x, y: b(num(x) <= num(y)))
        d(">=", XY, lambda e, x, y: b(num(x) >= num(y)))

        # io
        def printer(quoted, newline):
            def f(e, a):
                r = NIL
                while isinstance(a, Pair):
                    r = self.eval(e, a.car)
                    a = a.cdr
                    out = []
                    pr(r, quoted, out)
                    self.emit(b"".join(out))
                    if quoted and a is not NIL:
                        self.emit(b" ")
                if newline:
                    self.emit(b"\n")
                return r
            return f
        d("prin", ANY, printer(False, False))
        d("prinl", ANY, printer(False, True))
        d("print", ANY, printer(True, False))
        d("printl", ANY, printer(True, True))

    def n_list(self, e, a):
        xs = []
        while isinstance(a, Pair):
            xs.append(a.car)
            a = a.cdr
        r = a
        for x in reversed(xs):
            r = Pair(self.eval(e, x), r)
        return r

    def n_while(self, e, a):
        r = NIL
        cnd, body = a.car, a.cdr
        while self.eval(e, cnd) is not NIL:
            r = self.prog(e, body)
        return r

    def n_cond(self, e, a):
        val = self.eval(e, a.car if isinstance(a, Pair) else NIL)
        m = a.cdr if isinstance(a, Pair) else NIL
        while isinstance(m, Pair) and isinstance(m.car, Pair):
            pred, prog = m.car.car, m.car.cdr
            if pred is WILD:
                return self.eval(e, prog)
            if self.eval(e, Pair(pred, Pair(Pair(QUOTE, val), NIL))) is T:
                return self.eval(e, prog)
            m = m.cdr
        return NIL

    def matches(self, p, v):
        while True:
            if p is WILD:
                return True
            if isinstance(p, Pair) and isinstance(v, Pair):
                if not self.matches(p.car, v.car):
                    return False
                p, v = p.cdr, v.cdr
                continue
            if isinstance(v, (Clos, Native)):
                raise Unsupported("function matched")
            if isinstance(p, Pair) or isinstance(v, Pair):
                return False
            return equ(p, v)

    def n_match(self, e, a):
        val = self.eval(e, a.car if isinstance(a, Pair) else NIL)
        m = a.cdr if isinstance(a, Pair) else NIL
        while isinstance(m, Pair) and isinstance(m.car, Pair):
            if self.matches(m.car.car, val):
                return self.eval(e, m.car.cdr)
            m = m.cdr
        return NIL

    def n_let(self, e, a):
        binds = a.car if isinstance(a, Pair) else NIL
        env = dict(e)
        names = set()
        while isinstance(binds, Pair) and isinstance(binds.car, Pair):
            pat, expr = binds.car.car, binds.car.cdr
            v = self.eval(env, expr)
            kvs = []
            self.bind(kvs, pat, v)
            for k, _ in kvs:
                if k in names:
                    raise Unsupported("name bound twice in a let")
                names.add(k)
            env = self.merge(dict(env), kvs)
            binds = binds.cdr
        return self.prog(env, a.cdr if isinstance(a, Pair) else NIL)

    def n_lambda(self, e, a):
        args = a.car if isinstance(a, Pair) else NIL
        body = a.cdr if isinstance(a, Pair) else NIL
        if not isinstance(body, Pair):
            raise Unsupported("empty lambda")
        return Pair(args, Pair(Clos(list(e.items())), body))

    def n_def(self, e, a):
        if not isinstance(a, Pair) or not isinstance(a.car, Sym):
            return NIL
        name, r = a.car, a.cdr
        args = r.car if isinstance(r, Pair) else NIL
        if not (args is NIL or isinstance(args, (Pair, Sym))):
            return NIL
        body = r.cdr if isinstance(r, Pair) else NIL
        if isinstance(body, Pair) and isinstance(body.car, Pair) and isinstance(body.car.car, Char):
            body = body.cdr
        if not isinstance(body, Pair):
            raise Unsupported("empty def")
        f = Pair(args, Pair(Clos([]), body))
        self.setglobal(name.name, f)
        return name

    def setglobal(self, name, v):
        b = self.globals.get(name)
        if b is None:
            self.globals[name] = Box(v)
        else:
            b.v = v

    def n_setq(self, e, a):
        s = a.car if isinstance(a, Pair) else NIL
        r = a.cdr if isinstance(a, Pair) else NIL
        v = self.eval(e, r.car if isinstance(r, Pair) else NIL)
        if v is NIL:
            return NIL
        if isinstance(s, Sym):
            self.setglobal(s.name, v)
        return v

    MODULES = {"math": "+ - * / % < <= > >=".split(), "logic": "and or not = <>".split()}

    def n_load(self, e, a):
        """(load '(module name ...)), for the modules above."""
        if not hasattr(self, "pristine"):
            fresh = Interp(0)
            self.pristine = {k: b.v for k, b in fresh.globals.items()}
        if not (isinstance(a, Pair) and a.cdr is NIL):
            raise Unsupported("load")
        q = self.eval(e, a.car)
        if not (isinstance(q, Pair) and isinstance(q.car, Sym) and q.car.name in self.MODULES):
            raise Unsupported("load")
        out = []
        for s in to_list(q.cdr):
            if isinstance(s, Sym) and s.name in self.MODULES[q.car.name]:
                self.setglobal(s.name, self.pristine[s.name])
                out.append(s)
        return from_list(out)

    def n_set(self, e, a):
        s = self.eval(e, a.car if isinstance(a, Pair) else NIL)
        r = a.cdr if isinstance(a, Pair) else NIL
        v = self.eval(e, r.car if isinstance(r, Pair) else NIL)
        if not isinstance(s, Sym):
            return NIL
        b = e.get(s.name)
        if b is None:
            b = self.globals.get(s.name)
        if b is None:
            return NIL
        old = b.v
        b.v = v
        return old

    def n_stream(self, e, a):
        if not isinstance(a, Pair):
            return NIL
        r = self.eval(e, a.car)
        a = a.cdr
        while isinstance(a, Pair):
            r = self.eval(e, Pair(a.car, Pair(Pair(QUOTE, r), NIL)))
            a = a.cdr
        return r

    # -- library functions, as the reference manual describes them
    def library(self):
        d = self.defn

        def args(*n):
            return from_list([sym("lib:" + x) for x in n])

        def foldl(e, f, acc, l):
            if not is_list(l):
                return self.call(e, f, acc, l)
            for x in to_list(l):
                acc = self.call(e, f, acc, x)
            return acc

        def foldr(e, f, l, acc):
            if not is_list(l):
                return self.call(e, f, l, acc)
            for x in reversed(to_list(l)):
                acc = self.call(e, f, x, acc)
            return acc

        def map_(e, f, l):
            # elements are processed from the first to the last
            xs = to_list(l)
            tail = l
            while isinstance(tail, Pair):
                tail = tail.cdr
            return from_list([self.call(e, f, x) for x in xs], tail)

        def map2(e, f, a, b):
            return from_list([self.call(e, f, x, y) for x, y in zip(to_list(a), to_list(b))])
        d("foldl", args("f", "a", "l"), foldl)
        d("foldr", args("f", "l", "a"), foldr)
        d("map", args("f", "l"), map_)
        d("map2", args("f", "a", "b"), map2)
        d("zip", args("a", "b"), lambda e, a, b: from_list(
            [Pair(x, y) for x, y in zip(to_list(a), to_list(b))]))
        d("rev", args("l"), lambda e, l: from_list(reversed(to_list(l))))
        d("filter", args("f", "l"), lambda e, f, l: from_list(
            reversed([x for x in reversed(to_list(l)) if self.call(e, f, x) is NIL])))

        def has(e, l, x):
            return T if any(equ(y, x) for y in to_list(l)) else NIL
        d("has", args("l", "x"), has)

        def assoc(e, k, l):
            for x in to_list(l):
                if equ(x.car if isinstance(x, Pair) else NIL, k):
                    return x.cdr if isinstance(x, Pair) else NIL
            return NIL
        d("assoc", args("k", "l"), assoc)
        d("append", Pair(sym("lib:x"), sym("lib:@")), self.n_append)

    def n_append(self, e, x, rest):
        xs = to_list(x)
        for r in to_list(rest):
            xs += to_list(self.eval(e, r))
        return from_list(xs)


def run_threaded(fn, stack=512 * 1024 * 1024):
    """Run fn on a thread with a large stack, return its result."""
    res = {}

    def go():
        try:
            res["v"] = fn()
        except BaseException as ex:      # noqa
            res["e"] = ex
    threading.stack_size(stack)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    threading.stack_size(0)
    if "e" in res:
        raise res["e"]
    return res["v"]


# ---------------------------------------------------------------- reader

class ReadError(Exception):
    pass


MARKS = set("!@$%&*_+-={}[]:;|\\<>?,./")
ALPHA = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = set("0123456789")


def read_all(text):
    """Read the text of well-formed programs (no backtick or splice)."""
    pos = 0
    n = len(text)

    def skip():
        nonlocal pos
        while pos < n:
            c = text[pos]
            if c in " \t\n\r\v\f":
                pos += 1
            elif c == "#":
                while pos < n and text[pos] != "\n":
                    pos += 1
            else:
                break

    def item():
        nonlocal pos
        skip()
        if pos >= n:
            raise ReadError("end")
        c = text[pos]
        if c == "'":
            pos += 1
            return Pair(QUOTE, item())
        if c == "(":
            pos += 1
            xs = []
            tail = NIL
            while True:
                skip()
                if pos >= n:
                    raise ReadError("unterminated")
                if text[pos] == ")":
                    pos += 1
                    break
                if text[pos] == "." and (pos + 1 >= n or text[pos + 1] in " \t\n()'\"^"):
                    pos += 1
                    tail = item()
                    skip()
                    if pos >= n or text[pos] != ")":
                        raise ReadError("dot")
                    pos += 1
                    break
                xs.append(item())
            return from_list(xs, tail)
        if c == '"':
            pos += 1
            out = []
            while True:
                if pos >= n:
                    raise ReadError("string")
                ch = text[pos]
                if ch == "\\":
                    e = text[pos + 1]
                    out.append({"n": "\n", "t": "\t"}.get(e, e))
                    pos += 2
                elif ch == '"':
                    pos += 1
                    break
                else:
                    out.append(ch)
                    pos += 1
            return string("".join(out))
        if c == "^":
            if text[pos + 1] == "\\":
                e = text[pos + 2]
                pos += 3
                return Char({"e": 27, "n": 10, "r": 13, "t": 9}.get(e, ord(e)))
            ch = text[pos + 1]
            pos += 2
            return Char(ord(ch))
        if c in DIGIT or (c == "-" and pos + 1 < n and text[pos + 1] in DIGIT):
            st = pos
            pos += 1
            while pos < n and text[pos] in DIGIT:
                pos += 1
            return int(text[st:pos])
        if c in ALPHA or c in MARKS:
            st = pos
            while pos < n and (text[pos] in ALPHA or text[pos] in DIGIT or text[pos] in MARKS):
                pos += 1
            tok = text[st:pos]
            if len(tok) > 16:
                raise ReadError("symbol too long")
            return {"NIL": NIL, "T": T, "_": WILD}.get(tok, None) or sym(tok)
        raise ReadError("byte %r" % c)
    res = []
    while True:
        skip()
        if pos >= n:
            return res
        res.append(item())
