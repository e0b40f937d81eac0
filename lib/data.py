"""Random data, its texts in any layout, and the way it is delivered."""
import os
import subprocess
import threading
import time

import model as M

# names bound by the builtin modules and by the library
BOUND = frozenset("""
$+ % * + - / /**/ < <- <= <> <o <|> = > >& >= LST TST \\ accept and append args:parse args:parse_r args:skip
assert:equal assert:predicate assoc atm? aton caar cadar cadddr caddr cadr car cc:arg:get cc:arg:idx cc:build
cc:compile cc:compile1 cc:ext cc:flags cc:gen::module(MODULE cc:gen:argument cc:gen:block cc:gen:block-any
cc:gen:block-ite cc:gen:callback cc:gen:cleanup cc:gen:closure cc:gen:cont cc:gen:cont-any cc:gen:cont-ite
cc:gen:default cc:gen:entry cc:gen:function cc:gen:identity cc:gen:info cc:gen:main cc:gen:prologue
cc:gen:prototype cc:gen:ref cc:gen:retval cc:gen:value cc:gen:x cc:indent_r cc:level cc:live cc:op:atm:two
cc:op:extcall cc:op:funcall cc:op:lst:one cc:op:lst:two cc:op:num:one cc:op:num:two cc:op:predicate
cc:op:reccall cc:ref:idx cc:replace cc:value:atm cc:value:get cc:value:num cdar cddr cdr chr chr? close conc
cond connect cons cps:getrefs cps:getrefs-any cps:getrefs-ite cps:infer cps:lift cps:lift-any cps:lift-ite
cps:lift-ith cps:refcount cps:refcount_r cps:replace cps:swap cps:symbol cps:type:findl cps:type:findr
cps:type:fold cps:type:fold1 cps:type:func cps:type:get cps:type:mark cps:type:next dedup def dup erase eval
exec filter flatten foldl foldr fork has http/get http/headers http/ingress http/request http/response
http/serve if in insert isort iter iter2 join last len let list listen load lst? map map2 match merge nil? not
ntoa num? o> options or out o| pipe prin prinl print printl prog quit quote read readline readlines rep replc
rev run select setq slabinfo split str str? strlt sym sym? term:esc term:left term:right test:run
test:slabdelta time trim triml trimr tru? truncl truncr unless unlink usage wait when while whitespace? zip |>
""".split())

ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
MARKS = "!@$%&*_+-={}[]:;|\\<>?,./"
DIGIT = "0123456789"
NUMS = [0, 1, -1, 9, 10, 42, -100, 255, 65536, 1 << 31, -(1 << 31), 1 << 53, (1 << 63) - 1, -(1 << 63)]


def symbol(r):
    while True:
        n = r.choice([1, 1, 2, 3, 3, 4, 5, 8, 15, 16, 16])
        s = r.choice(ALPHA + (MARKS if r.random() < 0.5 else ""))
        pool = ALPHA + DIGIT + (MARKS if r.random() < 0.5 else "")
        s += "".join(r.choice(pool) for _ in range(n - 1))
        if s in ("T", "NIL", "_", "."):
            continue
        if s[0] == "-" and len(s) > 1 and s[1] in DIGIT:
            continue
        return s


def number(r):
    x = r.random()
    if x < 0.5:
        return r.randrange(-50, 200)
    if x < 0.8:
        return r.choice(NUMS)
    return r.randrange(-(1 << 63), 1 << 63)


def lexable_char(r):
    return r.choice(list(range(32, 127)) + [10, 13, 9, 27, 92])


def strbytes(r, n=None):
    if n is None:
        n = r.choice([1, 1, 2, 3, 5, 9, 17, 40])
    pool = r.choice([list(range(97, 123)), list(range(32, 127)), [34, 92, 110, 116, 10, 9, 35, 40, 41, 39, 32, 59],
                     list(range(1, 256))])
    return bytes(r.choice(pool) for _ in range(n))


def atom(r):
    k = r.randrange(10)
    if k < 3:
        return number(r)
    if k < 6:
        return M.sym(symbol(r))
    if k == 6:
        return M.Char(lexable_char(r))
    if k == 7:
        return M.string(strbytes(r))
    return r.choice([M.NIL, M.T, M.WILD])


def datum(r, d):
    if d <= 0 or r.random() < 0.25:
        return atom(r)
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    xs = [datum(r, d - 1) for _ in range(n)]
    x = r.random()
    if x < 0.15:
        return M.from_list(xs, atom(r))
    if x < 0.3:
        q = datum(r, d - 1)
        return M.Pair(M.QUOTE, q)
    return M.from_list(xs)


def big(r, kind, n):
    if kind == "string":
        return M.string(strbytes(r, n))
    if kind == "list":
        return M.from_list([atom(r) for _ in range(n)])
    if kind == "nest":
        x = atom(r)
        for _ in range(n):
            x = M.from_list([x]) if r.random() < 0.6 else M.from_list([number(r), x])
        return x
    if kind == "dots":
        x = atom(r)
        for _ in range(n):
            x = M.Pair(number(r), x)
        return x
    x = M.NIL
    for _ in range(n):
        x = M.Pair(x, atom(r))
    return x


def unlexable(x):
    return isinstance(x, M.Char) and not (32 <= x.v < 127 or x.v in (9, 10, 13, 27))


def tokens(x, r, out):
    """Tokens of the text of a datum; each is bytes."""
    if x is M.NIL:
        out += r.choice([[b"NIL"], [b"(", b")"]])
    elif isinstance(x, M.Pair):
        if x.car is M.QUOTE and (isinstance(x.cdr, (M.Sym, int)) or (isinstance(x.cdr, M.Pair)) or x.cdr is M.NIL) \
                and r.random() < 0.7:
            k = len(out)
            tokens(x.cdr, r, out)
            # the quote applies to what follows it directly: a list, a symbol, a number
            if out[k][:1] in b"'\"^":
                del out[k:]
                out += [b"(", b"quote", b"."]
                tokens(x.cdr, r, out)
                out.append(b")")
            else:
                out[k] = b"'" + out[k]
            return
        if isinstance(x.car, M.Char) and M.is_string(x) and all(M.to_bytes(x)) and (
                r.random() < 0.8 or not all(32 <= b < 127 or b in (9, 10, 13, 27) for b in M.to_bytes(x))):
            out.append(b'"' + escape(M.to_bytes(x), r) + b'"')
            return
        out.append(b"(")
        while isinstance(x, M.Pair):
            if unlexable(x.car):        # the rest is a string used as a tail
                out += [b".", b'"' + escape(M.to_bytes(x), r) + b'"', b")"]
                return
            tokens(x.car, r, out)
            x = x.cdr
        if x is not M.NIL or r.random() < 0.05:
            out.append(b".")
            tokens(x, r, out)
        out.append(b")")
    elif isinstance(x, M.Char):
        assert 32 <= (x.v & 255) < 127 or x.v in (9, 10, 13, 27)
        out.append(M.show(x))
    elif isinstance(x, int) and r.random() < 0.05 and x >= 0:
        out.append(b"0" * r.randrange(1, 4) + b"%d" % x)
    else:
        out.append(M.show(x))


def escape(b, r):
    out = bytearray()
    for i, c in enumerate(b):
        if c == 34:
            out += b'\\"'
        elif c == 92:
            out += b"\\\\"
        elif c == 10 and r.random() < 0.5:
            out += b"\\n"
        elif c == 9 and r.random() < 0.5:
            out += b"\\t"
        else:
            out.append(c)
    return bytes(out)


def comment(r):
    body = bytes(r.choice(b" abc()'\"^\\#.~`_T123\t;") for _ in range(r.choice([0, 1, 5, 30])))
    return b"#" + body + b"\n"


def space(r, style, must):
    """White space, newlines and comments between two tokens."""
    out = b""
    if style == "flat":
        out = b" " if must else b""
    elif style == "lines":
        out = r.choice([b"\n", b"\n\n", b" \n  "]) if must or r.random() < 0.5 else b""
    else:
        while r.random() < 0.45 or (must and not out):
            x = r.random()
            if x < 0.5:
                out += b" " * r.choice([1, 1, 2, 7])
            elif x < 0.8:
                out += r.choice([b"\n", b"\n", b"\t", b"\r\n", b"\n\n\n", b"\v", b"\f", b"\r"])
            elif x < 0.97:
                out += comment(r)
            else:
                out += b" " * r.choice([100, 1023, 5000])
    return out


def lay(toks, r, style=None):
    style = style or r.choice(["flat", "lines", "mixed", "mixed", "mixed"])
    out = bytearray()
    prev = None
    for t in toks:
        if prev is not None:
            delim = prev[-1:] in b"(\")" and not prev.startswith(b"^") or t[:1] in b"()\""
            if prev.startswith(b"^") and t not in (b")", b"("):
                delim = False
            if t == b"." or prev == b".":
                delim = False
            out += space(r, style, not delim)
        out += t
        prev = t
    return bytes(out)


def feed(proc, data, r):
    """Write the data to the stdin of a process in pieces, with pauses."""
    cuts = sorted(r.randrange(len(data) + 1) for _ in range(r.choice([0, 1, 3, 8]))) if data else []
    pieces = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]

    def go():
        try:
            for p in pieces:
                if p:
                    os.write(proc.stdin.fileno(), p) if len(p) < 4096 else writeall(proc.stdin.fileno(), p)
                    time.sleep(r.choice([0, 0.0005, 0.003]))
        except OSError:
            pass
        try:
            proc.stdin.close()
        except OSError:
            pass
    t = threading.Thread(target=go)
    t.start()
    return t


def writeall(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]
