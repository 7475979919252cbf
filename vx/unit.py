"""A verification unit: ghost text + functions extracted from /repo, run through Verus."""
import json, os, re, subprocess, time
from . import extract as X
from .rustlex import Tok, lex, text, match_close, norm

BUILD = os.environ.get("VERIF_BUILD", "/verif/build")

def drop_vis(toks):
    """visibility qualifiers are dropped"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].k == "id" and toks[i].t == "pub":
            nxt = i + 1
            if toks[nxt].t == "(" and toks[nxt+1].t in ("crate", "super", "self", "in"):
                nxt = match_close(toks, nxt) + 1
            if nxt < len(toks):
                toks[nxt] = Tok(toks[nxt].k, toks[nxt].t, toks[i].ws or toks[nxt].ws, toks[nxt].line)
            i = nxt; continue
        out.append(toks[i]); i += 1
    return out

class Unit:
    def __init__(self, name, rlimit=30, extra=()):
        self.name, self.rlimit, self.extra = name, rlimit, list(extra)
        self.chunks = []          # (label, fn(canary)->text)
        self.fns = []             # labels of extracted functions
        self.items = []
        self.rewrites = {}        # rule -> count
        self.global_rw = []       # (pat, repl, why)
        self.trusted = []
        self.canaries = 0
        self.assumed = None       # set to a property: functions added from now on are assumed with the contracts proved there

    # -- ghost text -------------------------------------------------------
    def raw(self, s, label="ghost text"):
        self.chunks.append((label, lambda canary: s))

    def trust(self, why, s=""):
        """Trusted specification: listed in the evidence."""
        self.trusted.append(why)
        if s: self.raw(s, "trusted specification")

    def rule(self, pat, repl, why):
        self.global_rw.append((pat, repl, why))

    def _apply_rules(self, toks, extra=()):
        toks = drop_vis(list(toks))
        for (pat, repl, why) in list(extra) + self.global_rw:
            toks, n = X.rewrite(toks, pat, repl)
            if n:
                k = f"{pat}  ==>  {repl}  ({why})"
                self.rewrites[k] = self.rewrites.get(k, 0) + n
        return toks

    # -- items ------------------------------------------------------------
    def item(self, path, kind, name, prefix="", rewrites=(), pub=True):
        t = X.find_item(path, kind, name)
        t = self._apply_rules(t, rewrites)
        if pub and kind in ("struct", "enum"):
            # visibility is widened so that contracts may mention the fields
            t = [x for x in t]
        s = prefix + " " + text(t).strip()
        self.items.append(f"{path}::{name}")
        self.chunks.append((f"{path}::{name}", lambda canary: s))

    def fn(self, path, name, impl=None, trait=None, ret=None, contract="", loops=(), start="",
           hints=(), rewrites=(), attrs="", wrap=None, header=None, sig=None, rename=None, in_trait=False,
           tail=None, fmt=False, pre=None, outer="", closure=None, lifted=()):
        """Extract path::[impl::]name and splice the contract.

        loops: one dict per loop in textual order: inv (invariant/decreases text), start, end, it (ghost iterator name)
        hints: (where, pattern, ghost text), where in before/after
        wrap: impl header to emit around the fn (default: as in the source)
        closure: (closure name, its parameters as written): the body of that local closure, lifted to a function whose
        signature is `sig` (captured variables become parameters); lifted: names of the local closures so lifted"""
        if self.assumed:
            return self._assume(path, name, impl, trait, ret, contract, rewrites, sig, rename, header, closure)
        f = X.find_fn(path, name, impl, trait)
        label = f"{impl + '::' if impl else ''}{name}"
        if closure:
            _s, _e, params, cb = X.find_closure(f.body, closure[0])
            if norm(params) != norm(lex(closure[1])): raise X.LostAnchor(f"{path}::{label}: closure {closure[0]} takes {norm(params)}")
            f = X.Fn(closure[0], f.sig, cb, None, f.file)
            label += "::" + closure[0].replace("@", "argument of ")
            self.rewrites[f"closure {closure[0]}  ==>  function of its parameters and captured variables"] = 1
        sigt = self._apply_rules(list(f.sig), rewrites)
        raw = list(f.body)
        for c in lifted:
            a, b, _p, _b = X.find_closure(raw, c)
            if not any(l.endswith("::" + c.replace("@", "argument of ")) for l in self.fns): raise X.LostAnchor(f"{label}: closure {c} is not lifted")
            raw[a:b] = lex("vx_lifted") if c.startswith("@") else []
        if fmt:
            from .fmt import expand
            raw = expand(raw, self.rewrites)
        if pre: raw = pre(raw, self.rewrites)
        body = [Tok(x.k, x.t, x.ws, x.line) for x in self._apply_rules(raw, rewrites)]
        for i in range(1, len(sigt) - 1):
            if sigt[i].t == "mut" and sigt[i+1].t == "self" and sigt[i-1].t == "(":
                # `mut self` is not supported: bind it by hand
                del sigt[i]
                for x in body:
                    if x.t == "self" and x.k == "id": x.t = "vx_self"
                body[1:1] = lex(" let mut vx_self = self;")
                self.rewrites["mut self  ==>  self + let mut vx_self = self"] = 1
                break
        # positions of the insertions, computed on the rewritten body
        ins = {}                     # token index -> list of (order, kind, text) inserted before the token
        def put(i, s, pre=False):
            ins.setdefault(i, []).append(s)
        lp = X.loops(body)
        if len(lp) != len(loops):
            raise X.LostAnchor(f"{path}::{label}: {len(lp)} loops, contract written for {len(loops)}")
        put(1 + (6 if any(x.t == "vx_self" for x in body[1:4]) else 0), ("START", start))
        for k, ((kw, o, c), L) in enumerate(zip(lp, loops)):
            if body[kw].t != L.get("kw", body[kw].t):
                raise X.LostAnchor(f"{path}::{label}: loop {k} is now `{body[kw].t}`")
            put(o, ("INV", L.get("inv", "")))
            put(o + 1, ("START", L.get("start", "")))
            if L.get("end"): put(c, ("TXT", L["end"]))
            if L.get("after"): put(c + 1, ("TXT", L["after"]))
            if L.get("before"): put(kw, ("TXT", L["before"]))
            if L.get("it"):
                j = kw
                while body[j].t != "in" or body[j].k != "id": j += 1
                put(j + 1, ("TXT", f" {L['it']}: "))
        for (where, pat, s) in hints:
            r = X.find_seq(body, pat)
            if r is None:
                raise X.LostAnchor(f"{path}::{label}: no `{pat}`")
            put(r[0] if where == "before" else r[1], ("TXT", s))
        if sig is None:
            # name the result
            if ret:
                i = 0
                while i < len(sigt) and sigt[i].t != "->":
                    i = match_close(sigt, i) + 1 if sigt[i].t in ("(", "[") else i + 1
                if i < len(sigt):
                    j = i + 1
                    while j < len(sigt) and sigt[j].t != "where": j += 1
                    sigtext = text(sigt[:i+1]) + f" ({ret}: {text(sigt[i+1:j]).strip()}) " + text(sigt[j:])
                else:
                    sigtext = text(sigt) + f" -> ({ret}: ())"
            else:
                sigtext = text(sigt)
        else:
            sigtext = sig
        if rename: sigtext = re.sub(r"\bfn\s+" + name + r"\b", "fn " + rename, sigtext)
        hdr = header if header is not None else (text(self._apply_rules(list(f.header))).strip() if f.header else None)
        fid = len(self.fns)
        self.fns.append(f"{path}::{label}")
        def emit(canary):
            out = []
            n = 0
            for i, t in enumerate(body):
                for (k, s) in ins.get(i, []):
                    out.append(" " + s.strip() + " ")
                    if k == "START" and canary:
                        out.append(f"\n if vx_nondet() {{ proof {{ assert(false); /*CANARY*/ }} }}\n")
                        n += 1
                out.append(t.ws + t.t)
            for (k, s) in ins.get(len(body), []): out.append(s)
            if tail:
                out = ["{ " + outer + " let vx_ret = "] + out + ["; proof { " + tail + " } vx_ret }"]
            s = attrs + "\n" + sigtext.strip() + "\n    " + contract.strip() + "\n" + "".join(out).strip()
            s = re.sub(r"\n\s*\n+", "\n", s)
            if hdr: s = f"{hdr} {{\n{s}\n}}"
            return s
        self.chunks.append((f"{path}::{label}", emit))

    def _assume(self, path, name, impl, trait, ret, contract, rewrites, sig, rename, header, closure):
        """the contract alone; the obligation that the function meets it is discharged by another property's check"""
        hdr = header
        if sig is None or header is None:
            f = X.find_fn(path, name, impl, trait)
            if header is None: hdr = text(self._apply_rules(list(f.header))).strip() if f.header else None
        if sig is None:
            sigt = self._apply_rules(list(f.sig), rewrites)
            i = 0
            while i < len(sigt) and sigt[i].t != "->": i = match_close(sigt, i) + 1 if sigt[i].t in ("(", "[") else i + 1
            if i < len(sigt):
                j = i + 1
                while j < len(sigt) and sigt[j].t != "where": j += 1
                sig = text(sigt[:i+1]) + f" ({ret or 'r'}: {text(sigt[i+1:j]).strip()}) " + text(sigt[j:])
            else: sig = text(sigt)
        if rename: sig = re.sub(r"\bfn\s+" + name + r"\b", "fn " + rename, sig)
        contract = re.sub(r"\bdecreases\b.*$", "", contract, flags=re.S)
        s = "#[verifier::external_body]\n" + sig.strip() + "\n    " + contract.strip() + "\n{ unimplemented!() }"
        if hdr: s = f"{hdr} {{\n{s}\n}}"
        what = f"{path}::{impl + '::' if impl else ''}{name}" + (f"::{closure[0]}" if closure else "")
        self.trusted.append(f"{what} meets its contract (discharged by the check of {self.assumed})")
        self.chunks.append((what + " (assumed)", lambda canary: s))

    # -- emission ---------------------------------------------------------
    def emit(self, canary=False):
        lines, lmap = [], []
        def add(label, s):
            a = len(lines) + 1
            lines.extend(s.split("\n"))
            lmap.append((a, len(lines), label))
        add("prelude", "#![allow(unused)]\nuse vstd::prelude::*;\nverus! {\n"
            "#[verifier::external_body] pub fn vx_nondet() -> bool { unimplemented!() }")
        for label, fn in self.chunks:
            add(label, fn(canary))
        add("epilogue", "} // verus!\nfn main() {}")
        return "\n".join(lines) + "\n", lmap

UNDECIDED = re.compile(r"rlimit|Resource limit|timed out|not supported|unsupported", re.I)

PROOF = re.compile(r"not satisfied|assertion failed|arithmetic|overflow|underflow|division by zero|unable to prove|cannot show|"
                   r"fails to|failed|unreachable|out of bounds|could not prove|termination", re.I)

def verus(path, rlimit, extra=(), multiple=2, timeout=600, log=None):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--rlimit", str(rlimit),
           "--multiple-errors", str(multiple), *extra]
    if log:
        cmd += ["--log-dir", log, "--log", "air"]
    cmd += ["--", "--error-format=json"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired as e:
        return dict(status="undecided", reason=f"verus ran over {timeout}s", errors=[], verified=0, wall=time.time()-t0,
                    smt_ms=0, funcs=[], raw="", cmd=" ".join(cmd))
    wall = time.time() - t0
    errs, notes = [], []
    for l in p.stderr.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("$message_type", "diagnostic") != "diagnostic": continue
        if d.get("level") == "error":
            spans = [(s["line_start"], s["line_end"], s["is_primary"], s.get("label"),
                      " ".join(x["text"].strip() for x in s.get("text", []))[:300],
                      os.path.basename(s["file_name"])) for s in d.get("spans", [])]
            errs.append(dict(msg=d["message"], code=(d.get("code") or {}).get("code") if d.get("code") else None,
                             spans=spans, rendered=d.get("rendered") or ""))
    try: js = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError: js = {}
    vr = js.get("verification-results", {})
    smt = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    funcs = []
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        funcs += [(f["function"], f["success"], f["time-micros"]) for f in m.get("function-breakdown", [])]
    errs = [e for e in errs if not e["msg"].startswith("aborting due to")]
    if vr.get("success") and p.returncode == 0 and not errs:
        st, reason = "verified", ""
    elif "verified" not in vr or vr.get("encountered-vir-error") or any(e["code"] for e in errs) or (not errs):
        st, reason = "unsupported", (errs[0]["msg"] if errs else (p.stderr[-400:] or "no result"))
    elif any(UNDECIDED.search(e["msg"]) for e in errs):
        st, reason = "undecided", next(e["msg"] for e in errs if UNDECIDED.search(e["msg"]))
    elif not any(PROOF.search(e["msg"]) for e in errs):
        st, reason = "unsupported", errs[0]["msg"]
    else:
        st, reason = "failed", next(e["msg"] for e in errs if PROOF.search(e["msg"]))
    return dict(status=st, reason=reason, errors=errs, verified=vr.get("verified", 0), failed=vr.get("errors", 0),
                wall=wall, smt_ms=smt, funcs=funcs, cmd=" ".join(cmd), raw=p.stderr)

def locate(lmap, line):
    for a, b, l in lmap:
        if a <= line <= b: return l
    return "?"

def count_obligations(logdir):
    """assertions sent to the solver, counted in the AIR log"""
    n = 0
    for r, _, fs in os.walk(logdir):
        for f in fs:
            if f.endswith(".air"):
                with open(os.path.join(r, f)) as h:
                    for l in h:
                        if re.match(r"\s*\(assert\s*$", l) or re.match(r"\s+\(assert ", l): n += 1
    return n

def run_unit(make, canary=True, timeout=600):
    """make() builds the Unit (may raise LostAnchor). Returns a result dict."""
    t0 = time.time()
    try:
        u = make()
    except X.LostAnchor as e:
        return dict(unit=getattr(make, "__module__", "?"), status="lost-anchor", reason=str(e), errors=[], verified=0,
                    obligations=0, smt_ms=0, wall=time.time()-t0, functions=[], trusted=[], rewrites={}, named=[])
    except Exception as e:   # the source no longer lexes the way the extractor expects
        return dict(unit=getattr(make, "__module__", "?"), status="lost-anchor", reason=f"extraction: {e!r}", errors=[],
                    verified=0, obligations=0, smt_ms=0, wall=time.time()-t0, functions=[], trusted=[], rewrites={}, named=[])
    d = os.path.join(BUILD, "gen", u.name)
    os.makedirs(d, exist_ok=True)
    src, lmap = u.emit()
    p = os.path.join(d, u.name + ".rs")
    open(p, "w").write(src)
    log = os.path.join(d, "log")
    subprocess.run(["rm", "-rf", log])
    r = verus(p, u.rlimit, u.extra, timeout=timeout, log=log)
    named = []
    if r["status"] in ("failed", "undecided"):
        for e in r["errors"]:
            # function: chunk holding any in-file span; clause: primary span text
            labs = [locate(lmap, s[0]) for s in e["spans"] if s[5] == u.name + ".rs"]
            fnl = next((l for l in labs if l in u.fns), labs[0] if labs else "?")
            prim = next((s[4] for s in e["spans"] if s[2]), "")
            named.append(dict(function=fnl, obligation=e["msg"], clause=prim))
    res = dict(unit=u.name, status=r["status"], reason=r["reason"], errors=r["errors"], named=named, verified=r["verified"],
               obligations=count_obligations(log), smt_ms=r["smt_ms"], functions=list(u.fns), items=u.items, trusted=list(u.trusted),
               rewrites=dict(u.rewrites), funcs=r["funcs"], cmd=r["cmd"], raw=r["raw"][-6000:], file=p)
    if r["status"] == "verified":
        if res["verified"] == 0 or res["obligations"] == 0:
            res["status"] = "undecided"; res["reason"] = "no obligation was generated"
        elif canary:
            csrc, cmap = u.emit(canary=True)
            cp = os.path.join(d, u.name + "_canary.rs")
            open(cp, "w").write(csrc)
            want = csrc.count("/*CANARY*/")
            c = verus(cp, u.rlimit, u.extra, multiple=60, timeout=timeout)
            hit = sum(1 for e in c["errors"] if "assertion failed" in e["msg"] and
                      any("CANARY" in s[4] for s in e["spans"]))
            res["canaries"] = dict(planted=want, failed_as_required=hit)
            res["smt_ms"] += c["smt_ms"]
            if hit < want:
                res["status"] = "undecided"
                res["reason"] = f"vacuity check: only {hit} of {want} reachability canaries failed ({c['reason']})"
    res["wall"] = time.time() - t0
    return res
