"""Hostile workloads shared by the memory (C01), conservation (C02) and
malformed-text (C18) monitors."""
import re

# values given to the built-ins.  None has the shape of a function, see DESIGN.md
POOL = ["NIL", "T", "_", "^a", "^\\n", "0", "1", "-1", "3", "9223372036854775807", "-9223372036854775808", "4294967296",
        "'sym", "'sixteen_chars_ab", '""', '"s"', '"str"', '"a string that is longer than sixteen"',
        "'(1 . 2)", "'(NIL)", "'(1 2 3)", "'((a . 1) (b . 2))", "'(^a . ^b)", "'(^a 1 ^b)", "'(a b . c)",
        "'(((1)))", "(list 1 \"x\" 'y)", "(cons NIL NIL)"]
FUNCS = ["car", "+", "(+ 1)", "(\\ (x) x)", "(\\ () 1)", "(\\ a a)", "(\\ (a b) (list a b))", "((\\ (a b c) c) 1)",
         "(\\ ((p . q) r) p)", "if", "quote"]

# built-ins that evaluate all of their arguments: name -> arity
EAGER = {"car": 1, "cdr": 1, "cons": 2, "conc": 2, "chr": 1, "eval": 1, "len": 1, "atm?": 1, "lst?": 1, "nil?": 1,
         "tru?": 1, "num?": 1, "chr?": 1, "sym?": 1, "str?": 1, "sym": 1, "str": 1, "and": 2, "not": 1, "=": 2, "<>": 2,
         "+": 2, "-": 2, "*": 2, "/": 2, "%": 2, "<": 2, ">": 2, "<=": 2, ">=": 2,
         "or": 2, "list": 3, "prog": 2, "prin": 2, "print": 2, "printl": 2, "prinl": 2,
         "if": 3, "when": 2, "unless": 2, "unlink": 1, "accept": 1, "wait": 1, "time": 0, "slabinfo": 0}
LAZY = {"or", "list", "prog", "prin", "print", "printl", "prinl", "if", "when", "unless"}


def rarg(r, func=True):
    return r.choice(POOL + (FUNCS if func else []))


def misuse(r):
    """One call of a built-in with arguments it does not expect."""
    k = r.random()
    if k < 0.55:
        f, n = r.choice(sorted(EAGER.items()))
        m = max(0, n + r.choice([0, 0, 0, 0, -1, 1, 2]))
        if f in ("accept",):
            return "(%s %s)" % (f, r.choice(["NIL", "-1", "9999", "'s", '"x"', "T", "car"]))
        if f == "wait":
            return "(wait %s)" % r.choice(["999999999", "T", "NIL"])
        if f == "unlink":
            return "(unlink %s)" % r.choice(["NIL", '""', '"no-such-file"', '"a/b"', "'s", "1", "'(1 2)", "car",
                                             '"%s"' % ("x" * r.choice([255, 256, 4094, 4095, 4096, 5000]))])
        args = [rarg(r, not (f == "conc" and i == 0)) for i in range(m)]
        if f == "conc" and args:
            args[0] = r.choice(["NIL", "T", "1", "'s", "(list 1 2)", "(cons 1 2)", "(list 1 (list 2))", '(list ^a ^b)', "_"])
        if f == "eval":
            args = [rarg(r, False) for _ in range(m)]
        if r.random() < 0.15 and n == 2 and len(args) > 1 and f not in LAZY:
            return "((%s %s) %s)" % (f, args[0], " ".join(args[1:]))
        return "(%s)" % " ".join([f] + args)
    a, b, c = (rarg(r) for _ in range(3))
    d1 = r.choice(POOL).lstrip("'")
    d2 = r.choice(POOL).lstrip("'")
    forms = [
        "(let ((x . %s)) (list x %s))" % (a, b), "(let (%s) %s)" % (d1, a), "(let %s %s)" % (d1, a), "(let)",
        "(let ((%s . %s)) %s)" % (d1, a, b), "(let (((a b . c) . %s)) (list a b c))" % a,
        "(let ((((a) b) . %s)) (list a b))" % a, "(let ((x . %s) %s) x)" % (a, d1),
        "(match %s)" % a, "(match)", "(match %s (%s . %s) (_ . %s))" % (a, d1, b, c), "(match %s %s)" % (a, d1),
        "(match %s ((%s . _) . %s))" % (a, d1, b), "(match %s ((_ _ . %s) . %s))" % (a, d2, b),
        "(cond %s)" % a, "(cond)", "(cond %s (%s . %s) (_ . %s))" % (a, r.choice(FUNCS + ["num?", "1", "NIL"]), b, c),
        "(cond %s %s)" % (a, d1),
        "(|> %s)" % a, "(|>)", "(|> %s (\\ (x) %s))" % (a, b), "(|> %s (cons %s) car)" % (a, b),
        "(while NIL %s)" % a, "(while)", "(while NIL)",
        "(<- %s %s)" % (a, b), "(<-)", "(<- 'nope %s)" % a, "(<- 'nope)", "(let ((x . %s)) (list (<- 'x %s) x))" % (a, r.choice(POOL)),
        "(setq)", "(setq h:x)", "(setq h:x %s)" % a, "(setq %s %s)" % (d1 if d1[0] != "(" else "1", a),
        "(def)", "(def h:f)", "(def %s (x) x)" % d1, "(def h:f (x) (list x %s))" % a, "(h:f %s)" % a,
        "(def h:g %s %s)" % (r.choice(["NIL", "x", "(x . y)", "(_ x)", "((a b) c)", "1", "^a"]), b),
        "(def h:h (x) \"doc\" (cons x %s))" % a, "(h:h %s %s)" % (a, b), "(h:h)",
        "(\\ %s %s)" % (r.choice(["NIL", "x", "(x . y)", "((a b) c)"]), a),
        "((\\ (x y) (list y x)) %s %s)" % (a, b), "((\\ ((a . b) . c) (list a b c)) %s %s %s)" % (a, b, c),
        "((\\ (x) x) %s %s)" % (a, b), "((\\ () 1) %s)" % a, "(((\\ (x y) (cons x y)) %s) %s)" % (a, b),
        "((\\ x x) %s %s)" % (a, b),
        "(quote %s)" % d1, "(quote . %s)" % d1, "(list . %s)" % ("1" if d1[0] == "(" else d1), "(prog . 5)", "(or)",
        "(if)", "(if %s)" % a, "(if %s %s)" % (a, b), "(and)", "(+ 1 . 2)", "(car . 1)", "(list 1 . 2)",
        "(in %s (readline))" % a if a not in FUNCS else "(in NIL 1)",
        "(in %s (read) (readline))" % r.choice(['"data.txt"', '"no-such"', '""', '"."', "99", "-1", "'s", "T",
                                                '"%s"' % ("y/" * r.choice([10, 2047, 2048, 3000])), '"@lib/x"', '"~/x"', '"/"']),
        "(out %s (prin %s))" % (r.choice(['"o.txt"', '"no/such"', '""', '"."', "99", "-1", "'s", "T", "'(1 2)",
                                          '"%s"' % ("y" * r.choice([255, 256, 4090, 4096, 5000])), '"/"']), a),
        "(out \"o2.txt\" (out \"o3.txt\" (printl %s)) (printl %s))" % (a, b),
        "(in)", "(out)", "(in NIL)", "(out NIL (prin 1))", "(in \"data.txt\")", "(out \"o4.txt\")",
        "(load %s)" % r.choice(['"no-such.l"', '""', '"."', '"data.txt"', "'nosuch", "'(std car nosuch)", "'(nosuch a)",
                                "'(1 2)", "'(std)", "'(std . car)", "'((a) b)", "1", "NIL", "'std", "'(std 5 (x))", "_", "T",
                                "'sixteen_chars_ab", '"%s"' % ("z" * r.choice([255, 1000, 4095, 4096, 6000])), '"@lib/none"',
                                '"~"', '"@"', '"@lib"', '"~/none"']),
        "(select %s %s %s)" % (r.choice(["'(0)", "'(0 -1)", "'(0 99999)", "'(0 foo)", "'(0 . 5)", "'(-1 1024 0)",
                                         "1", "'s", "'(0 (1) \"s\")"]),
                               r.choice(["NIL", "(\\ (x) T)", "(\\ (x) NIL)", "(\\ (x) x)", "(\\ (x) 7)", "5", "'s", "\"str\"",
                                         "car", "(\\ () 1)", "(\\ (a b) 1)"]),
                               r.choice(["NIL", "(\\ (x) T)", "5", "car"])),
        "(connect %s %s)" % (r.choice(["NIL", '""', '"127.0.0.1"', "5", "'(1)", '"%s"' % ("1" * 2000)]),
                             r.choice(["NIL", '""', '"1"', "5", '"-1"', '"%s"' % ("1" * 2000)])),
        "(listen %s)" % r.choice(["NIL", "-1", "65536", "9223372036854775807", '"x"', "'s", "car"]),
        "(close %s)" % r.choice(["-1", "9999", "9223372036854775807 -1", "'s", "\"s\""]),
        "(close)", "(dup)", "(dup -1)", "(dup -1 -1)", "(dup 's)", "(dup 9999 5000000)", "(fork 1)",
        "(sym \"%s\")" % ("q" * r.choice([0, 1, 15, 16, 17, 30, 300])), "(str (sym \"%s\"))" % ("q" * r.choice([1, 15, 16, 17])),
        "(eval '(%s %s))" % (r.choice(["car", "cons", "list", "nope", "1", "NIL", "^a"]), r.choice(POOL)),
        "(eval '%s)" % d1 if d1[0] not in '^\"' else "(eval %s)" % d1, "(%s %s)" % (r.choice(["nope", "1", "NIL", "T", "_", "^a", "\"s\""]), a), "(nope . 1)",
        "(%s)" % d1 if d1[0] != "(" else "()",
        # a function seen as data
        "(len %s)" % r.choice(FUNCS), "(= %s %s)" % (r.choice(FUNCS), r.choice(FUNCS)), "(print %s)" % r.choice(FUNCS),
        "(cdr (cdr %s))" % r.choice(FUNCS), "(car (cdr %s))" % r.choice(FUNCS), "(let (((a b . c) . %s)) a)" % r.choice(FUNCS),
        "(match %s ((_ _ . _) . 1) (_ . 2))" % r.choice(FUNCS), "(foldl %s %s %s)" % (r.choice(FUNCS + ["1", "NIL", "'s"]), a, b),
        "(foldr %s %s %s)" % (r.choice(FUNCS + ["1", "NIL", "'s"]), a, b), "(map %s %s)" % (r.choice(FUNCS + ["1", "NIL"]), a),
        "(map2 %s %s %s)" % (r.choice(FUNCS + ["1", "NIL"]), a, b), "(zip %s %s)" % (a, b),
        "(assoc %s %s)" % (a, b), "(last %s)" % r.choice(POOL), "(caar %s)" % a, "(cadar %s)" % a, "(caddr %s)" % a,
        "(truncl %d %s)" % (r.randrange(0, 9), r.choice(POOL)), "(rep %d %s)" % (r.randrange(0, 5), a),
    ]
    return r.choice(forms)


HEADS = ["quote", "list", "cons", "prin", "+", "=", "if", "prog", "foo", "a", "1", "-7", "^x", "NIL", "T", "_", "car", "print",
         "sixteen_chars_ab", "when", "len"]
ATOMS = HEADS + ["'a", "''b", "\"str\"", "\"\"", "\"a\\nb\"", "\"q\\\"q\"", "^\\n", "^\\\\", "^ ", "^)", "9223372036854775807",
                 "99999999999999999999999", "-", ".", "a.b", "'", "^", "# comment ( ) \"\n", "#\n", "\"tab\\t)\"",
                 "\"two\nlines\"", "''", "symbol-longer-than-sixteen", "--5", "5x", "1.5", "^^", "^'", "^\""]
JUNK = ["\x01", "\x7f", "\x00", "\xff", "\x80", "\xc3\xa9", "\"", ")", "))", ". )", ". a b)", "\\", "^", "(a . )", "(a . b c)",
        "(. a)", "\x1b[A", "\r", "\v", "\f"]


def soup(r, size=None, junk=0.15):
    """Text made of tokens, mostly balanced, with junk."""
    out = []
    depth = 0
    n = size or r.choice([1, 3, 8, 20, 60, 150])
    for _ in range(n):
        x = r.random()
        if x < 0.25 and depth < 40:
            out.append("(" + r.choice(HEADS))
            depth += 1
        elif x < 0.45 and depth > 0:
            out.append(")")
            depth -= 1
        elif x < 0.45 + junk:
            out.append(r.choice(JUNK))
        else:
            out.append(r.choice(ATOMS))
        out.append(r.choice(["", " ", " ", " ", "\n", "\t", "  "]))
    if r.random() < 0.7:
        out.append(")" * depth)
    if r.random() < 0.7:
        out.append("\n")
    t = "".join(out)
    if r.random() < 0.3 and t:
        # byte-level damage
        t = list(t)
        for _ in range(r.randrange(1, 5)):
            i = r.randrange(len(t))
            k = r.randrange(3)
            if k == 0:
                t[i] = chr(r.randrange(256))
            elif k == 1:
                t.insert(i, r.choice("()'\". ^\n#\\"))
            else:
                t[i] = ""
        t = "".join(t)
    return t


VALID = r"0-9A-Za-z!$%&*_+\-={}\[\]:;|\\<>?,./"


def acceptable(t):
    """A list in function position (an open parenthesis must be followed by an
    atom that the lexer accepts) or text evaluated while reading is outside of
    the domain, and so are the functions that wait or touch files."""
    if "`" in t or "~" in t or "@" in t:
        return False
    for m in re.finditer(r"\(", t):
        if not re.match(r"\s*([%s]|\^([ -\[\]-~]|\\[\\enrt])|\"|\))" % VALID, t[m.end():]):
            return False
        if re.match(r"\s*\.(\s|[^%s])" % VALID, t[m.end():]) and not re.match(r"\s*\. a\)", t[m.end():]):
            return False
    return not re.search(r"(^|[^a-z])(in|out|while|load|def|let|setq|quit|fork|exec)([^a-z]|$)", t)


def text(r, **kw):
    while True:
        t = soup(r, **kw)
        if acceptable(t):
            return t


MODULES = "(load 'std 'logic 'math 'io 'sys 'unix 'iterators 'manips)\n"
