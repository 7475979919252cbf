"""Minimal lossless-enough Rust lexer: tokens carry the whitespace before them;
comments (line, block, doc) are replaced by whitespace and so dropped."""
import re

class Tok:
    __slots__ = ("k", "t", "ws", "line")
    def __init__(self, k, t, ws, line):
        self.k, self.t, self.ws, self.line = k, t, ws, line
    def __repr__(self):
        return f"{self.t!r}"

PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||",
         "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]
IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0[xob][0-9A-Fa-f_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?|[0-9][0-9_]*\.(?![.A-Za-z_])")
RAWSTR = re.compile(r'(?:b|c)?r(#*)"')

class LexError(Exception):
    pass

def lex(src):
    i, n, line = 0, len(src), 1
    out = []
    ws = ""
    def emit(k, t):
        nonlocal ws
        out.append(Tok(k, t, ws, line)); ws = ""
    while i < n:
        c = src[i]
        if c.isspace():
            ws += c
            if c == "\n": line += 1
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            line += src.count("\n", i, j)
            ws += " "; i = j; continue
        m = RAWSTR.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0: raise LexError("raw string")
            j += len(end)
            t = src[i:j]; emit("str", t); line += t.count("\n"); i = j; continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i+1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            t = src[i:j]; emit("str", t); line += t.count("\n"); i = j; continue
        if c == "'" or (c == "b" and src.startswith("b'", i)):
            k = i + (2 if c == "b" else 1)
            if src[k] == "\\":
                j = src.index("'", k + 2 if src[k+1] != "'" else k + 2) + 1
                emit("char", src[i:j]); i = j; continue
            if k + 1 < n and src[k+1] == "'":
                emit("char", src[i:k+2]); i = k + 2; continue
            m = IDENT.match(src, k)
            if m:
                emit("life", src[i:m.end()]); i = m.end(); continue
            raise LexError("quote")
        m = IDENT.match(src, i)
        if m:
            emit("id", m.group()); i = m.end(); continue
        if c.isdigit():
            # tuple field access such as x.0.1
            if out and out[-1].t == "." and ws == "":
                m = re.compile(r"[0-9]+").match(src, i)
            else:
                m = NUM.match(src, i)
            t = m.group()
            # "0..n" must not swallow the range dots
            if t.endswith(".") and src.startswith("..", i + len(t) - 1):
                t = t[:-1]
            emit("num", t); i += len(t); continue
        for p in PUNCT:
            if src.startswith(p, i):
                emit("p", p); i += len(p); break
        else:
            emit("p", c); i += 1
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(toks, i):
    """index of the bracket closing the one at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN: d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0: return j
    raise LexError("unbalanced")

def text(toks):
    return "".join(t.ws + t.t for t in toks)

def norm(toks):
    return " ".join(t.t for t in toks)
