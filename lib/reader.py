"""What the reader makes of arbitrary bytes (no NUL, backtick or tilde): tokens
by longest match, lists by recursive descent; an error drops the expression in
which it occurs and the rest of the line."""
import re

import model as M

SYM = rb"[A-Za-z!@$%&*_+\-={}\[\]:;|\\<>?,./][A-Za-z0-9!@$%&*_+\-={}\[\]:;|\\<>?,./]{0,15}"
NUM = rb"-?[0-9]+"
R_SYM, R_NUM = re.compile(SYM), re.compile(NUM)
R_CHAR = re.compile(rb"\^(\\[\\enrt]|[ -\[\]-~])")
R_STR = re.compile(rb'"((?:[^"\\]|\\.)*)"', re.S)
R_SPACE = re.compile(rb"[ \t\n\r\v\f]+|#[^\n]*")
MAXI, MINI = (1 << 63) - 1, -(1 << 63)


class Bad(Exception):
    """A malformed token at position POS."""

    def __init__(self, pos):
        self.pos = pos


class End(Exception):
    """The text ends in the middle of a token."""


def clamp(n):
    return max(MINI, min(MAXI, n))


def word(t):
    return {b"NIL": M.NIL, b"T": M.T, b"_": M.WILD}.get(t) or M.sym(t.decode("latin-1"))


def token(b, p):
    """-> (kind, value, end) or None at the end of the text."""
    while True:
        m = R_SPACE.match(b, p)
        if not m or m.end() == p:
            break
        p = m.end()
    if p >= len(b):
        return None
    c = b[p:p + 1]
    if c in b"()":
        return c, None, p + 1
    q = 0
    if c == b"'":
        if b[p + 1:p + 2] == b"(":
            return b"'(", None, p + 2
        q = 1
    n = R_NUM.match(b, p + q)
    s = R_SYM.match(b, p + q)
    if n and (not s or n.end() >= s.end()):
        v, e = clamp(int(n.group(0))), n.end()
    elif s:
        if not q and s.group(0) == b".":
            return b".", None, s.end()
        v, e = word(s.group(0)), s.end()
    elif q:
        raise Bad(p)
    elif c == b'"':
        m = R_STR.match(b, p)
        if not m:
            raise End()
        return b"v", unescape(m.group(1)), m.end()
    elif c == b"^":
        m = R_CHAR.match(b, p)
        if not m:
            raise Bad(p)
        t = m.group(1)
        return b"v", M.Char({b"\\e": 27, b"\\n": 10, b"\\r": 13, b"\\t": 9, b"\\\\": 92}.get(t, t[0])), m.end()
    else:
        raise Bad(p)
    return b"v", (M.Pair(M.QUOTE, v) if q else v), e


def unescape(t):
    out = bytearray()
    k = 0
    while k < len(t):
        if t[k] == 92:
            k += 1
            out.append({110: 10, 116: 9}.get(t[k], t[k]))
        else:
            out.append(t[k])
        k += 1
    return M.string(bytes(out))


def read(b, lines=True):
    """-> list of ("value", datum, end) and ("error", None, pos), in order; LINES: an error drops the rest of its line
    only, else the rest of the text. The last entry is ("open",) when the text ends inside an expression."""
    out = []
    stack = []          # of [quoted, items, state, tail]; state 0: items, 1: after the dot, 2: after the tail
    p = 0

    def drop(pos):
        nonlocal p, stack
        out.append(("error", None, pos))
        stack = []
        k = b.find(b"\n", pos) if lines else -1
        p = len(b) if k < 0 else k + 1
    while True:
        try:
            t = token(b, p)
        except End:
            return out + [("open", None, len(b))]
        except Bad as e:
            # the error is seen at the first byte that does not fit: a newline after ' or ^ belongs to that line
            drop(e.pos)
            continue
        if t is None:
            return out + ([("open", None, len(b))] if stack else [])
        kind, v, end = t
        if kind == b"'(" or kind == b"(":
            if stack and stack[-1][2] == 2:
                drop(p_of(b, p))
                continue
            stack.append([kind == b"'(", [], 0, M.NIL])
            p = end
            continue
        if kind == b".":
            if not stack or stack[-1][2] or not stack[-1][1]:
                drop(p_of(b, p))
                continue
            stack[-1][2] = 1
            p = end
            continue
        if kind == b")":
            if not stack or stack[-1][2] == 1:
                drop(p_of(b, p))
                continue
            quoted, items, _, tail = stack.pop()
            v = M.from_list(items, tail)
            if quoted:
                v = M.Pair(M.QUOTE, v)
        p = end
        if not stack:
            out.append(("value", v, end))
        elif stack[-1][2] == 0:
            stack[-1][1].append(v)
        elif stack[-1][2] == 1:
            stack[-1][2:] = [2, v]
        else:
            # the error is on the line where the token ends
            drop(end - 1)
    return out


def p_of(b, p):
    """Where the token after P starts."""
    while True:
        m = R_SPACE.match(b, p)
        if not m or m.end() == p:
            return p
        p = m.end()
