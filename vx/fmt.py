"""Formatting macros, spelled out mechanically.

`write!(o, "a{}b{x:02}", e)`  ==>  `o.vx_write(vx_cat(vx_cat(vx_cat(vx_lit("a"), vx_fmt(&(e))), vx_lit("b")), vx_fmt_02(&(x))))`
`format!("…")`                ==>  `vx_string(…)`
`debug_assert!(c, "…")`       ==>  `assert(c)` is left to the unit's rewrite rules.
The unit supplies the (trusted) meaning of vx_lit, vx_cat, vx_fmt*."""
import re
from .rustlex import Tok, lex, match_close, text, OPEN, CLOSE
from .extract import LostAnchor

def split_args(t):
    out, cur, i = [], [], 0
    while i < len(t):
        if t[i].t == "," and t[i].k == "p":
            out.append(cur); cur = []; i += 1; continue
        if t[i].t in OPEN and t[i].k == "p":
            j = match_close(t, i); cur += t[i:j+1]; i = j + 1; continue
        cur.append(t[i]); i += 1
    if cur: out.append(cur)
    return out

def spec_name(s):
    if not s: return "vx_fmt"
    return "vx_fmt_" + re.sub(r"[^A-Za-z0-9]", lambda m: {".": "p", "?": "debug", "#": "alt", "<": "l", ">": "r", "^": "c"}.get(m.group(), "x"), s)

def pieces(lit, args):
    """[(text, None) | (None, expression text, fn)]"""
    m = re.match(r'^"(.*)"$', lit, re.S)
    if not m: raise LostAnchor("format string " + lit)
    s = re.sub(r"\\\n\s*", "", m.group(1))
    out, cur, i, nxt = [], "", 0, 0
    args = list(args)
    named = {}
    pos = []
    for a in args:
        if len(a) > 2 and a[0].k == "id" and a[1].t == "=": named[a[0].t] = text(a[2:])
        else: pos.append(text(a))
    while i < len(s):
        c = s[i]
        if c in "{}" and s[i:i+2] == c * 2: cur += c; i += 2; continue
        if c == "\\" and s[i+1] == "u":
            j = s.index("}", i) + 1
            cur += s[i:j]; i = j; continue
        if c == "\\": cur += s[i:i+2]; i += 2; continue
        if c == "{":
            j = s.index("}", i)
            inner = s[i+1:j]; i = j + 1
            name, _, spec = inner.partition(":")
            if cur: out.append(("lit", cur)); cur = ""
            if name == "": e = pos[nxt]; nxt += 1
            elif name.isdigit(): e = pos[int(name)]
            else: e = named.get(name, name)
            out.append(("arg", e.strip(), spec_name(spec)))
            continue
        if c == "}": raise LostAnchor("format string " + lit)
        cur += c; i += 1
    if cur: out.append(("lit", cur))
    return out

def newline(ps):
    return ps[:-1] + [("lit", ps[-1][1] + "\\n")] if ps and ps[-1][0] == "lit" else ps + [("lit", "\\n")]

def expr(ps):
    r = None
    for p in ps:
        e = f'vx_lit("{p[1]}")' if p[0] == "lit" else f"{p[2]}(&({p[1]}))"
        r = e if r is None else f"vx_cat({r}, {e})"
    return r if r is not None else 'vx_lit("")'

def expand(toks, count):
    """expand write!/writeln!/format! in a token list"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t in ("write", "writeln", "format") and i + 2 < len(toks) and toks[i+1].t == "!" and toks[i+2].t in OPEN:
            c = match_close(toks, i + 2)
            args = split_args(expand(toks[i+3:c], count))
            if t.t == "format":
                ps = pieces(args[0][0].t, args[1:]); new = f"vx_string({expr(ps)})"
            else:
                if len(args) < 2: args.append([Tok("str", '""', "", 0)])
                ps = pieces(args[1][0].t, args[2:])
                if t.t == "writeln": ps = newline(ps)
                o = text(args[0]).strip()
                o = re.sub(r"^&\s*mut\s+", "", o)
                new = f"{o}.vx_write({expr(ps)})"
            nt = lex(new)
            nt[0].ws = t.ws or " "
            out += nt
            k = f"{t.t}!(…)  ==>  {'vx_string' if t.t == 'format' else 'vx_write'} of the concatenated pieces"
            count[k] = count.get(k, 0) + 1
            i = c + 1; continue
        if t.k == "id" and t.t in ("print", "println", "eprint", "eprintln") and i + 2 < len(toks) and toks[i+1].t == "!" and toks[i+2].t in OPEN:
            c = match_close(toks, i + 2)
            if t.t[0] == "e": new = "vx_eprint()"; k = f"{t.t}!(…)  ==>  vx_eprint() (standard error is not modelled)"
            else:
                args = split_args(expand(toks[i+3:c], count)) or [[Tok("str", '""', "", 0)]]
                ps = pieces(args[0][0].t, args[1:])
                if t.t == "println": ps = newline(ps)
                new = f"vx_out.vx_print({expr(ps)})"; k = f"{t.t}!(…)  ==>  vx_out.vx_print of the concatenated pieces"
            nt = lex(new)
            nt[0].ws = t.ws or " "
            out += nt
            count[k] = count.get(k, 0) + 1
            i = c + 1; continue
        out.append(t); i += 1
    return out
