"""A small Rust tokenizer: enough to find items, loops and statements by token structure."""
import re

IDENT = re.compile(r"r#[A-Za-z_][A-Za-z0-9_]*|[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0[xX][0-9a-fA-F_]+[a-z0-9]*|0[bB][01_]+[a-z0-9]*|0[oO][0-7_]+[a-z0-9]*|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9_]+)?[a-zA-Z0-9_]*")
CHAR = re.compile(r"b?'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'\n])'", re.S)
LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")
STR = re.compile(r'b?"(\\.|[^"\\])*"', re.S)
RAW = re.compile(r'b?r(#*)"')


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f"{self.k}:{self.t}"


class LexError(Exception):
    pass


def lex(src):
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = RAW.match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.find(close, m.end())
            if j < 0:
                raise LexError("raw string")
            j += len(close)
            out.append(Tok("str", src[i:j], i, j)); i = j
            continue
        m = STR.match(src, i)
        if m:
            out.append(Tok("str", m.group(), i, m.end())); i = m.end()
            continue
        m = CHAR.match(src, i)
        if m:
            out.append(Tok("char", m.group(), i, m.end())); i = m.end()
            continue
        m = LIFE.match(src, i)
        if m:
            out.append(Tok("life", m.group(), i, m.end())); i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end())); i = m.end()
            continue
        if c.isdigit():
            m = NUM.match(src, i)
            out.append(Tok("num", m.group(), i, m.end())); i = m.end()
            continue
        out.append(Tok("p", c, i, i + 1)); i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(OPEN.values())


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN:
                d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError("unbalanced")
