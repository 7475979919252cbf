"""Mechanical extraction of Rust items from /repo's current source.

What the extraction keeps: every token of the extracted item.
What it drops: comments and outer attributes.  What it changes: only the rewrite
rules listed by a unit (each use is counted and reported in the evidence), and the
insertion of ghost text (contracts, loop invariants, proof blocks)."""
import os, re
from .rustlex import lex, match_close, text, norm, Tok, OPEN, CLOSE

REPO = os.environ.get("VERIF_REPO", "/repo")

class LostAnchor(Exception):
    pass

_cache = {}
def load(path):
    p = os.path.join(REPO, path)
    if p not in _cache:
        try:
            with open(p) as f: src = f.read()
        except OSError:
            raise LostAnchor(f"file {path} is gone")
        _cache[p] = _cfg(lex(src))
    return _cache[p]

OFF = {'"unicode-xid"'}     # cargo features the build does not enable (see the crates' Cargo.toml)

def _cfg(t):
    """without what is compiled only with a feature that is off"""
    out, i = [], 0
    while i < len(t):
        if t[i].t == "#" and i + 3 < len(t) and t[i+1].t == "[" and t[i+2].t == "cfg":
            end = match_close(t, i + 1); inner = "".join(x.t for x in t[i+4:end-1])
            if any(inner == f"not(feature={f})" for f in OFF): i = end + 1; continue
            if any(inner == f"feature={f}" for f in OFF):
                i = end + 1
                while t[i].t not in ("{", ";"):
                    if t[i].t in ("#", "(", "["): i = match_close(t, i + (t[i].t == "#")) + 1
                    else: i += 1
                i = (match_close(t, i) if t[i].t == "{" else i) + 1
                continue
        out.append(t[i]); i += 1
    return out

def _skip_generics(t, i):
    """i at '<': index after matching '>'"""
    d = 0
    while i < len(t):
        x = t[i].t
        if x == "<": d += 1
        elif x == ">": d -= 1
        elif x == ">>": d -= 2
        elif x == "<<": d += 2
        elif x in ("(", "[", "{"): i = match_close(t, i)
        i += 1
        if d <= 0: return i
    raise LostAnchor("generics")

def impls(t, lo=0, hi=None):
    """yield (trait or None, self type last ident, header toks, body_open, body_close)"""
    hi = len(t) if hi is None else hi
    i = lo
    while i < hi:
        x = t[i]
        if x.t == "#" and i + 1 < hi and t[i+1].t in ("[", "!"):
            j = i + 1 if t[i+1].t == "[" else i + 2
            i = match_close(t, j) + 1; continue
        if x.t == "mod" and t[i+2].t == "{":
            end = match_close(t, i + 2)
            # skip test modules
            if not (t[i+1].t in ("tests", "test", "verif", "verif_hooks")):
                yield from impls(t, i + 3, end)
            i = end + 1; continue
        if x.t == "impl" and x.k == "id":
            j = i + 1
            if t[j].t == "<": j = _skip_generics(t, j)
            h0 = j
            while t[j].t != "{":
                if t[j].t == "<": j = _skip_generics(t, j)
                elif t[j].t in ("(", "["): j = match_close(t, j) + 1
                else: j += 1
            header = t[i:j]
            # split at 'for' / 'where' on top level
            parts, cur, k = [], [], h0
            trait = None
            while k < j:
                if t[k].t == "for" and not (t[k+1].t == "<"): trait = cur; cur = []; k += 1; continue
                if t[k].t == "where": break
                if t[k].t == "<":
                    k = _skip_generics(t, k); continue
                cur.append(t[k]); k += 1
            def last(p):
                ids = [q.t for q in p if q.k == "id" and q.t not in ("dyn", "mut")]
                return ids[-1] if ids else norm(p)
            end = match_close(t, j)
            yield (last(trait) if trait is not None else None, last(cur), header, j, end)
            i = end + 1; continue
        if x.t in ("{", "(", "["):
            i = match_close(t, i) + 1; continue
        i += 1

class Fn:
    def __init__(self, name, sig, body, header, file):
        self.name, self.sig, self.body, self.header, self.file = name, sig, body, header, file
        # sig: tokens from visibility to just before '{'; body: tokens from '{' to '}'

QUAL = {"pub", "const", "unsafe", "async", "extern", "default"}

def _fns(t, lo, hi):
    """functions directly inside [lo,hi): (name, start, body_open, body_close)"""
    i = lo
    while i < hi:
        x = t[i]
        if x.t == "#" and t[i+1].t == "[":
            i = match_close(t, i + 1) + 1; continue
        if x.t == "fn" and x.k == "id" and t[i+1].k == "id":
            s = i
            while s > lo and (t[s-1].t in QUAL or t[s-1].k == "str" or
                              (t[s-1].t == ")" and _is_pub_paren(t, s-1, lo))):
                if t[s-1].t == ")":
                    while t[s].t != "(" or s == i: s -= 1
                    s0 = s
                    while t[s0].t != "pub": s0 -= 1
                    s = s0
                else:
                    s -= 1
            j = i + 2
            if t[j].t == "<": j = _skip_generics(t, j)
            while t[j].t not in ("{", ";"):
                if t[j].t in ("(", "["): j = match_close(t, j) + 1
                else: j += 1
            if t[j].t == ";": i = j + 1; continue
            end = match_close(t, j)
            yield (t[i+1].t, s, i, j, end)
            i = end + 1; continue
        if x.t in ("{", "(", "["):
            i = match_close(t, i) + 1; continue
        i += 1

def _is_pub_paren(t, i, lo):
    j = i
    while j > lo and t[j].t != "(": j -= 1
    return j > lo and t[j-1].t == "pub" and i - j <= 4

def find_fn(path, name, impl=None, trait=None):
    t = load(path)
    if impl is None:
        regions = [(0, len(t), None)]
    elif trait is True:      # a default method of the trait
        regions = []
        for i in range(len(t) - 1):
            if t[i].t == "trait" and t[i+1].t == impl:
                j = i + 2
                while t[j].t != "{": j += 1
                regions.append((j + 1, match_close(t, j), None))
        if not regions: raise LostAnchor(f"{path}: trait {impl} not found")
    else:
        regions = [(o + 1, c, h) for (tr, ty, h, o, c) in impls(t) if ty == impl and (tr == trait or (
            trait and "<" in trait and tr == trait.split("<")[0] and "".join(trait.split()) + "for" in "".join(x.t for x in h)))]
        if not regions: raise LostAnchor(f"{path}: impl {impl} not found")
    found = []
    for lo, hi, h in regions:
        for (n, s, f, o, c) in _fns(t, lo, hi):
            if n == name:
                found.append(Fn(name, t[s:o], t[o:c+1], h, path))
    if len(found) != 1:
        raise LostAnchor(f"{path}: fn {impl+'::' if impl else ''}{name} found {len(found)} times")
    return found[0]

def find_const(path, name, impl, trait=None):
    """the (literal) value of an associated constant"""
    t = load(path)
    for (tr, ty, _h, o, c) in impls(t):
        if ty != impl or tr != trait: continue
        for i in range(o + 1, c):
            if t[i].t == "const" and t[i+1].t == name:
                j = i
                while t[j].t != "=": j += 1
                k = j + 1
                while t[k].t != ";": k += 1
                if k == j + 2 and t[j+1].k == "str": return t[j+1].t
                raise LostAnchor(f"{path}: {impl}::{name} is not a string literal")
    raise LostAnchor(f"{path}: {impl}::{name} not found")

def list_fns(path, impl=None, trait=None):
    t = load(path)
    regions = [(0, len(t))] if impl is None else [(o+1, c) for (tr, ty, h, o, c) in impls(t) if ty == impl and tr == trait]
    return [n for lo, hi in regions for (n, *_r) in _fns(t, lo, hi)]

def find_closure(body, name):
    """`let [mut] name = [move] |params| [-> T] body;` in a function body: (start, end, params, body tokens as a block)"""
    if name.startswith("@"): return find_arg_closure(body, name)
    hits = []
    for i in range(len(body) - 4):
        if body[i].t != "let" or body[i].k != "id": continue
        j = i + 1
        if body[j].t == "mut": j += 1
        if body[j].t != name or body[j+1].t != "=": continue
        j += 2
        if body[j].t == "move": j += 1
        if body[j].t == "||": params = []; j += 1
        elif body[j].t == "|":
            k = j + 1
            while body[k].t != "|": k = match_close(body, k) + 1 if body[k].t in OPEN else k + 1
            params = body[j+1:k]; j = k + 1
        else: continue
        if body[j].t == "->":
            while body[j].t != "{": j += 1
        k = j
        while body[k].t != ";": k = match_close(body, k) + 1 if body[k].t in OPEN else k + 1
        b = body[j:k]
        if not (b[0].t == "{" and match_close(body, j) == k - 1):
            b = lex("{ ") + b + lex(" }")
        hits.append((i, k + 1, params, b))
    if len(hits) != 1: raise LostAnchor(f"closure {name} found {len(hits)} times")
    return hits[0]

def find_arg_closure(body, name):
    """`@f` or `@f#k`: the closure that is the last argument of the only, or k-th, call of f in a function body"""
    callee, _, which = name[1:].partition("#")
    hits = []
    for i in range(len(body) - 2):
        if body[i].t != callee or body[i+1].t != "(": continue
        end = match_close(body, i + 1)
        j = i + 2
        while j < end and body[j].t not in ("|", "||", "move"): j = match_close(body, j) + 1 if body[j].t in OPEN else j + 1
        if j >= end: continue
        if body[j].t == "move": j += 1
        s = j
        if body[j].t == "||": params = []; j += 1
        else:
            k = j + 1
            while body[k].t != "|": k = match_close(body, k) + 1 if body[k].t in OPEN else k + 1
            params = body[j+1:k]; j = k + 1
        if body[j].t == "->":
            while body[j].t != "{": j += 1
        e = end - 1 if body[end-1].t == "," else end
        b = body[j:e]
        if not (b[0].t == "{" and match_close(body, j) == e - 1): b = lex("{ ") + b + lex(" }")
        hits.append((s, e, params, b))
    k = int(which or 0)
    if (not which and len(hits) != 1) or k >= len(hits): raise LostAnchor(f"closure given to {callee} found {len(hits)} times")
    return hits[k]

def find_item(path, kind, name):
    """struct / enum / const / type item as tokens (attributes dropped, also on fields)"""
    t = load(path)
    for i in range(len(t) - 1):
        if t[i].t == kind and t[i].k == "id" and t[i+1].t == name:
            s = i
            if s > 0 and t[s-1].t == "pub": s -= 1
            elif s > 0 and t[s-1].t == ")" and _is_pub_paren(t, s-1, 0):
                while t[s].t != "pub": s -= 1
            j = i + 2
            while True:
                if t[j].t == ";": end = j; break
                if t[j].t == "{":
                    end = match_close(t, j); break
                if t[j].t in ("(", "["): j = match_close(t, j) + 1; continue
                j += 1
            if t[j].t == "{" and kind in ("const", "type", "static"):
                while t[end].t != ";": end += 1
            return drop_attrs(t[s:end+1])
    raise LostAnchor(f"{path}: {kind} {name} not found")

def drop_attrs(t):
    out, i = [], 0
    while i < len(t):
        if t[i].t == "#" and i + 1 < len(t) and t[i+1].t == "[":
            i = match_close(t, i + 1) + 1; continue
        out.append(t[i]); i += 1
    return out

# ---------------------------------------------------------------- rewrites
def _pat(s):
    toks = lex(s.replace("$", " ZZMETA_"))
    return [("meta", x.t[7:]) if x.t.startswith("ZZMETA_") else ("lit", x.t) for x in toks]

def _match(pat, toks, i):
    """match pattern at i; metas match a shortest non-empty balanced run"""
    def go(pi, ti, env):
        if pi == len(pat): return ti, env
        k, v = pat[pi]
        if k == "lit":
            if ti < len(toks) and toks[ti].t == v: return go(pi + 1, ti + 1, env)
            return None
        if v.startswith("i_"):   # one identifier
            if ti < len(toks) and toks[ti].k == "id":
                return go(pi + 1, ti + 1, {**env, v: [toks[ti]]})
            return None
        if v.startswith("s_"):   # a shortest run of statements, possibly none
            j = ti
            while True:
                r = go(pi + 1, j, {**env, v: toks[ti:j]})
                if r: return r
                if j >= len(toks) or toks[j].t in CLOSE: return None
                j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
        if v.startswith("b_"):   # everything up to the closing delimiter, statements included
            j = ti
            while j < len(toks) and toks[j].t not in CLOSE:
                j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            return go(pi + 1, j, {**env, v: toks[ti:j]})
        j = ti
        while j < len(toks):
            if toks[j].t in CLOSE: return None
            if toks[j].t == ";" : return None
            j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            r = go(pi + 1, j, {**env, v: toks[ti:j]})
            if r: return r
        return None
    return go(0, i, {})

def rewrite(toks, pat, repl):
    """replace every match; returns (tokens, count)"""
    p = _pat(pat)
    out, i, n = [], 0, 0
    while i < len(toks):
        m = _match(p, toks, i)
        if m and m[0] > i:
            end, env = m
            body = repl
            new = []
            for x in lex(body.replace("$", " ZZMETA_")):
                if x.t.startswith("ZZMETA_"):
                    sub = env[x.t[7:]]
                    new += [Tok(y.k, y.t, y.ws or (" " if q == 0 else ""), y.line) for q, y in enumerate(sub)]
                else: new.append(x)
            if new:
                new[0] = Tok(new[0].k, new[0].t, toks[i].ws or " ", toks[i].line)
            out += new; i = end; n += 1
        else:
            out.append(toks[i]); i += 1
    return out, n

def find_seq(toks, pat, start=0):
    p = _pat(pat)
    for i in range(start, len(toks)):
        m = _match(p, toks, i)
        if m: return i, m[0]
    return None

def loops(toks):
    """[(kw index, body open, body close)] of while/for/loop in order, closures included"""
    out = []
    for i, x in enumerate(toks):
        if x.k == "id" and x.t in ("while", "for", "loop"):
            if x.t == "for" and toks[i+1].t == "<": continue   # for<'a>
            j = i + 1
            while toks[j].t != "{":
                if toks[j].t in ("(", "["): j = match_close(toks, j) + 1
                else: j += 1
            out.append((i, j, match_close(toks, j)))
    return out

def calls(toks):
    """names called in a body: f(..), x.f(..), Self::f(..)"""
    s = set()
    for i in range(len(toks) - 1):
        if toks[i].k == "id" and toks[i+1].t in ("(", "::") :
            if toks[i+1].t == "(": s.add(toks[i].t)
            elif i + 2 < len(toks) and toks[i+2].t == "<": s.add(toks[i].t)
    return s
