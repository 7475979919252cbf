#!/usr/bin/env python3
"""plant.py NAME...: check planted bugs in a scratch copy of /repo: the patch applies, builds, passes the stable tests;
demo.sh exits 0 without and nonzero with it.  plant.py --diff NAME makes patch.diff from the scratch copy's edits."""
import json, os, subprocess, sys, shutil
S = "/tmp/seedrepo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=S, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, errors="replace")
def fresh():
    if not os.path.exists(S): subprocess.run(["cp", "-a", "/repo", S], check=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- .")
def env(): return ". /opt/vp/env.sh; "
def tests():
    r = sh(env() + f"cd {S}; timeout 600 cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test |error|warning: unused' ")
    bad = [l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
    ok = sum(l.endswith("... ok") for l in r.stdout.splitlines())
    return ok, bad
def demo(n):
    d = "/tmp/seeddemo"; shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{n}", d)
    for f in ("patch.diff", "meta.json"): os.remove(f"{d}/{f}") if os.path.exists(f"{d}/{f}") else None
    # the demo works on its cwd; show it the scratch copy
    r = sh(f"bash {d}/demo.sh", t=300)
    shutil.rmtree(d)
    return r.returncode, "\n".join(l for l in (r.stdout + r.stderr).splitlines() if "cfg" not in l)[-800:]
for n in sys.argv[1:]:
    fresh()
    b = sh(env() + f"cd {S}; cargo build --workspace --offline 2>&1 | tail -3")
    rc0, o0 = demo(n)
    a = sh(f"git apply {V}/seeded/{n}/patch.diff")
    if a.returncode: print(n, "DOES NOT APPLY", a.stderr); continue
    b = sh(env() + f"cd {S}; cargo build --workspace --offline 2>&1 | tail -30")
    ok, bad = tests()
    rc1, o1 = demo(n)
    good = rc0 == 0 and rc1 != 0 and ok >= 143 and not bad
    print(n, "GOOD" if good else "BAD", "unchanged", rc0, "patched", rc1, "tests ok", ok, bad[:5])
    if not good: print(o0, "\n----\n", o1)
    fresh()
