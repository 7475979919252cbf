"""Function contracts decided by Kani: functions extracted from /repo, each checked against its contract over all inputs.
Only for loop-free functions: nothing is unwound, so nothing is bounded."""
import importlib, os, re, signal, subprocess, time
from . import extract as X
from .rustlex import text
from .unit import drop_vis
BUILD = os.environ.get("VERIF_BUILD", "/verif/build")

class KUnit:
    def __init__(self, name):
        self.name, self.chunks, self.fns, self.items, self.trusted, self.rewrites, self.harnesses = name, [], [], [], [], {}, []

    def _rules(self, toks, rules):
        toks = drop_vis(list(toks))
        for pat, repl, why in rules:
            toks, n = X.rewrite(toks, pat, repl)
            if n: self.rewrites[f"{pat}  ==>  {repl}  ({why})"] = n
        return toks

    def raw(self, s): self.chunks.append(s)
    def trust(self, why): self.trusted.append(why)

    def item(self, path, kind, name, rewrites=()):
        self.items.append(f"{path}::{name}")
        self.chunks.append(text(self._rules(X.find_item(path, kind, name), rewrites)).strip())

    def fn(self, path, name, impl=None, contract="", rewrites=()):
        f = X.find_fn(path, name, impl, None)
        if X.loops(list(f.body)): raise X.LostAnchor(f"{path}::{name} has a loop")
        self.fns.append(f"{path}::{impl + '::' if impl else ''}{name}")
        s = contract + "\n" + text(self._rules(f.sig, rewrites)).strip() + " " + text(self._rules(f.body, rewrites)).strip()
        self.chunks.append(f"impl {impl} {{\n{s}\n}}" if impl else s)

    def harness(self, target, body, name, solver="kissat"):
        self.harnesses.append(name)
        self.chunks.append(f"#[kani::proof_for_contract({target})]\n#[kani::solver({solver})]\nfn {name}() {{ {body} }}")

def run(k, tier):
    mod, fn = k
    t0 = time.time()
    res = dict(unit=fn, back_end="kani 0.68.0 / cbmc 6.11.0 / kissat", status="lost-anchor", reason="", errors=[], named=[], verified=0, obligations=0, smt_ms=0,
               functions=[], items=[], trusted=[], rewrites={}, cmd="")
    try: u = getattr(importlib.import_module("proofs." + mod), fn)()
    except Exception as e:
        res.update(reason=f"{e}", wall=time.time() - t0); return res
    d = os.path.join(BUILD, "gen", u.name); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, u.name + ".rs")
    open(p, "w").write("#![allow(unused)]\n" + "\n".join(u.chunks) + "\nfn main() {}\n")
    cmd = ["kani", p, "-Z", "function-contracts"]
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, cwd=d)
    try: o, _ = pr.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL); o = pr.communicate()[0] + "\ntimed out"
    checks = re.findall(r"Check \d+: (\S+)\s*\n\s*- Status: (\S+)\s*\n\s*- Description: \"(.*?)\"\n(?:\s*- Location: (.*))?", o)
    covers = [c for c in checks if ".cover." in c[0]]
    rest = [c for c in checks if c not in covers]
    bad = [c for c in rest if c[1] == "FAILURE"]
    res.update(unit=u.name, functions=u.fns, items=u.items, trusted=u.trusted, rewrites=u.rewrites, cmd=" ".join(cmd), wall=time.time() - t0, obligations=len(rest), file=p,
               smt_ms=int(1000 * sum(float(x) for x in re.findall(r"Verification Time: ([0-9.]+)s", o))), raw=o[-6000:])
    ok = len(re.findall(r"VERIFICATION:- SUCCESSFUL", o))
    unmet = [c for c in covers if c[1] != "SATISFIED"]
    res["canaries"] = dict(planted=len(covers), failed_as_required=len(covers) - len(unmet))
    if bad:
        res["status"], res["reason"] = "failed", bad[0][2]
        res["named"] = [dict(function=u.fns[0], obligation=c[2], clause=f"{c[0]} {c[3]}") for c in bad]
        res["errors"] = [dict(msg=c[2], rendered=f"{c[0]}: {c[2]} ({c[3]})\n") for c in bad]
    elif ok == len(u.harnesses) and not unmet and rest and all(c[1] in ("SUCCESS", "UNREACHABLE") for c in rest):
        res["status"], res["verified"] = "verified", ok
    elif ok == len(u.harnesses) and unmet: res["status"], res["reason"] = "undecided", f"vacuity check: {unmet[0][2]} is out of reach"
    else: res["status"], res["reason"] = ("undecided" if "timed out" in o or checks else "unsupported"), (re.findall(r"^error.*", o, re.M) or [o[-300:]])[0]
    return res
