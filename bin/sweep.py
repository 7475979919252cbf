#!/usr/bin/env python3
"""sweep.py [NAME...]: run each planted bug's check(s) on a patched scratch copy of /repo, record the outcome in docs/seeded.json.
Not a registered check; the harness crates name /repo, so the patch is applied to /repo itself and undone straight afterwards."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = V + "/docs/seeded.json"
res = json.load(open(P)) if os.path.exists(P) else {}
names = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for n in names:
    meta = json.load(open(f"{V}/seeded/{n}/meta.json"))
    assert subprocess.run("git -C /repo diff --quiet", shell=True).returncode == 0
    a = subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{n}/patch.diff"])
    if a.returncode: print(n, "does not apply"); continue
    try:
        out = []
        for pid in [meta["property"]] + meta.get("also", []):
            t = time.time()
            r = subprocess.run([sys.executable, V + "/bin/check.py", pid, "quick"], capture_output=True, text=True, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            how = "MISSED" if not v else ("proof, no input" if v[0].endswith("no-failing-input-found") else "failing input")
            fo = [l for l in r.stdout.splitlines() if " verus " in l or " kani " in l]
            pr = ["refuted" if ": failed" in l else "no verdict" if ": verified" not in l else "unaffected" for l in fo]
            out.append(f"{pid}: {how} (proof: {', '.join(pr) or 'none'})")
            print(n, out[-1], f"{time.time()-t:.0f}s", flush=True)
            if "-v" in os.environ.get("SWEEP", ""): print(r.stdout[-3000:])
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    res[n] = "; ".join(out)
    json.dump(res, open(P, "w"), indent=1, sort_keys=True)
