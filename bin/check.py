#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property for the code in /repo.

1. extract the functions under contract from /repo and let the deductive verifier discharge every obligation;
2. run the executable form of the same contracts against the real code (this supplies failing inputs, and is
   the labelled bounded stand-in when the code has left the shape the contracts were written for).
"""
import importlib, json, os, re, signal, struct, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("VERIF_BUILD", os.path.join(ROOT, "build"))
BUILD = os.environ["VERIF_BUILD"]
REPO = os.environ.get("VERIF_REPO", "/repo")
from checks import PROPS
from vx.unit import run_unit
from vx import kani as K

def sh(cmd, timeout, **kw):
    """run in a session of its own, so that a timeout leaves nothing behind"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, errors="replace", **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e

def target(crate):
    return os.path.join(BUILD, "target-measure" if crate == "ocm" else "target")

def build_oracle(crate):
    d = os.path.join(ROOT, "harness", crate)
    env = dict(os.environ, CROFILER_VERIF=os.path.join(ROOT, "hooks"), CARGO_NET_OFFLINE="true",
               RUSTFLAGS="--cfg crofiler_verif%s -Awarnings" % ("_measure" if crate == "ocm" else ""), RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", ""))
    if not env["RUSTUP_TOOLCHAIN"]: del env["RUSTUP_TOOLCHAIN"]
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", target(crate)]
    if crate == "crofiler":
        # the binary itself, with its guarded hook compiled in
        d = REPO
        cmd += ["--locked", "--bin", "crofiler", "--config", "profile.dev.opt-level=1", "--config", "profile.dev.debug=false"]
    rc, o, e = sh(cmd, 700, cwd=d, env=env)
    return rc == 0, e[-3000:]

def run_oracle(crate, check, tier, seed, secs):
    b = os.path.join(target(crate), "debug", crate)
    prog = os.path.join(BUILD, f"progress-{check}")
    work = os.path.join(BUILD, f"scratch-{check}")
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ, VERIF_SCRATCH=work, CROFILER_ORACLE="1")
    rc, o, e = sh([b, check, "--tier", tier, "--seed", str(seed), "--secs", str(secs), "--progress", prog], secs + 60, cwd=work, env=env)
    line = next((l for l in reversed(o.splitlines()) if l.startswith('{"check"')), None)
    if line:
        try: return json.loads(line)
        except ValueError: pass
    try: case = struct.unpack("<Q", open(prog, "rb").read(8))[0]
    except Exception: case = 0
    why = "ran out of time" if rc is None else f"the process died with status {rc}: {e[-300:]}"
    if rc == 3: return dict(check=check, seed=seed, cases=0, secs=0, hits={}, notes=["oracle unusable: " + e[-300:]], samples=[], violations=[], unusable=True)
    return dict(check=check, seed=seed, cases=case, secs=secs, hits={}, notes=[], samples=[], violations=[dict(case=case, input="", message=why)])

def describe(crate, check, tier, seed, case):
    b = os.path.join(target(crate), "debug", crate)
    rc, o, e = sh([b, check, "--tier", tier, "--seed", str(seed), "--case", str(case), "--secs", "60"], 40, env=dict(os.environ, CROFILER_ORACLE="1"))
    return (o or "")[:20000]

def known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    units = []
    for (mod, fn) in P.get("units", []):
        m = importlib.import_module("proofs." + mod)
        r = run_unit(getattr(m, fn), canary=True, timeout=300 if tier == "quick" else 900)
        units.append(r)
        print(f"[{pid}] verus {r['unit']}: {r['status']} {r.get('reason','')[:300]} ({r['verified']} verified, {r['obligations']} obligations, {r['wall']:.1f}s)")
    for k in P.get("kani", []):
        r = K.run(k, tier)
        units.append(r)
        print(f"[{pid}] kani {r['unit']}: {r['status']} {r.get('reason','')[:300]} ({r['verified']} harnesses, {r['obligations']} obligations, {r['wall']:.1f}s)")
    failed = [u for u in units if u["status"] == "failed"]
    weak = [u for u in units if u["status"] not in ("failed", "verified")]
    orc, ok, berr = [], None, ""
    budget = P.get("secs", {}).get(tier, 60 if tier == "quick" else 500)
    for (crate, check) in P.get("oracle", []):
        ok, berr = build_oracle(crate)
        if not ok:
            print(f"[{pid}] oracle {crate} does not build: {berr[-1500:]}")
            continue
        d = run_oracle(crate, check, tier, seed, budget)
        if not d["violations"] and (failed or weak) and tier == "quick":
            # an obligation is open: look harder for an input
            for s2 in (seed + 1000, seed + 1001):
                d2 = run_oracle(crate, check, "thorough", s2, 60)
                d["cases"] += d2["cases"]
                if d2["violations"]: d["violations"], d["seed"], d["tier"] = d2["violations"], s2, "thorough"; break
        if d.get("unusable"): ok = False
        d["crate"] = crate
        orc.append(d)
        print(f"[{pid}] oracle {crate} {check}: {d['cases']} cases, {len(d['violations'])} violations {json.dumps(d['hits'])[:300]}")
    # ---- verdict
    rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
    out = []
    listed = [k for k in known() if k["property"] == pid and k.get("status") == "known"]
    for k in listed: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    def fail_text(us):
        s = ""
        for u in us:
            for n in u.get("named", []): s += f"failed obligation in {n['function']}: {n['obligation']}: {n['clause']}\n"
            s += f"back end: {u.get('cmd','')}\n"
            s += "".join(e.get("rendered", "") for e in u.get("errors", []))[:12000] + "\n" + u.get("cex", "")
        return s
    for d in orc:
        vs = [v for v in d["violations"] if not any(re.search(k["match"], v["message"] + "\n" + v["input"]) for k in listed)]
        if vs:
            v = vs[0]
            p = os.path.join(rdir, f"{pid}.txt")
            inp = v["input"] or describe(d["crate"], d["check"], d.get("tier", tier), d["seed"], v["case"])
            with open(p, "w") as h:
                h.write(f"property {pid}: {P['title']}\nviolated by the real code: {v['message']}\ninput: {inp}\n"
                        f"replay: {'CROFILER_ORACLE=1 ' if d['crate'] == 'crofiler' else ''}{target(d['crate'])}/debug/{d['crate']} {d['check']} --tier {d.get('tier', tier)} --seed {d['seed']} --case {v['case']}\n\n")
                h.write(fail_text(failed))
            print(f"[{pid}] {v['message'][:600]}\n[{pid}] input: {inp[:600]}")
            out.append(f"VIOLATION property={pid} replay={p}")
            break
    if not out:
        for u in failed:
            if u.get("replayed"):
                p = os.path.join(rdir, f"{pid}.txt")
                open(p, "w").write(f"property {pid}: {P['title']}\n" + fail_text([u]))
                out.append(f"VIOLATION property={pid} replay={p}")
                break
    if not out and failed:
        p = os.path.join(rdir, f"{pid}.txt")
        open(p, "w").write(f"property {pid}: {P['title']}\n" + fail_text(failed))
        for u in failed:
            for n in u.get("named", [])[:6]: print(f"[{pid}] failed obligation in {n['function']}: {n['obligation']}: {n['clause'][:300]}")
        out.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    # ---- evidence
    proved = [u for u in units if u["status"] == "verified"]
    trusted = sorted({t for u in units for t in u.get("trusted", [])} | set(P.get("assume", [])))
    level = P.get("level", "proof")
    cov = dict(
        obligations=sum(u["obligations"] for u in units),
        discharged=sum(u["obligations"] for u in proved),
        checker_cmd="; ".join(u.get("cmd", "") for u in units) or "none",
        trusted_base=trusted or ["none"],
        back_ends=sorted({u.get("back_end", "verus 0.2026.09.13 / z3") for u in units}),
        functions_under_contract=sorted({f for u in units for f in u.get("functions", [])}),
        types_extracted=sorted({f for u in units for f in u.get("items", [])}),
        verified_functions_and_lemmas=sum(u["verified"] for u in proved),
        solver_ms=sum(u["smt_ms"] for u in units),
        vacuity_canaries={u["unit"]: u.get("canaries") for u in units},
        extraction_rewrites={u["unit"]: u.get("rewrites") for u in units},
        units=[dict(unit=u["unit"], status=u["status"], reason=u.get("reason", "")[:500], wall_s=round(u["wall"], 1)) for u in units],
        bounded_units=[dict(unit=u["unit"], bound=u["bound"]) for u in units if u.get("bound")],
        fell_back_to_bounded=[u["unit"] for u in weak],
        executable_contract=[dict(crate=d["crate"], check=d["check"], seed=d["seed"], cases=d["cases"], exercised=d["hits"], notes=d["notes"]) for d in orc],
        evaluations=sum(d["cases"] for d in orc),
        distinct_nontrivial=sum(d.get("distinct", 0) for d in orc),
        rule="executable form of the contract run on the real code: " + P.get("rule", "generated inputs; non-trivial = reached the situation the property is about"),
        samples=[s for d in orc for s in d.get("samples", [])][:6] or ["none"],
    )
    if level == "other" or "explanation" in P: cov["explanation"] = P.get("explanation", "")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=trusted + P.get("limits", []),
              wall_s=round(time.time() - t0, 2), violations=len(out))
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for l in out: print(l)
    if out: sys.exit(1)
    if not orc and weak:
        print(f"[{pid}] nothing could be decided"); sys.exit(2)
    if not orc and not units: sys.exit(2)
    if P.get("oracle") and not orc and not proved: sys.exit(2)
    sys.exit(0)
main()
