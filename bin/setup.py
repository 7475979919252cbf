#!/usr/bin/env python3
"""Build the oracles once, so that the checks only rebuild what changed."""
import glob, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
env = dict(os.environ, CROFILER_VERIF=os.path.join(ROOT, "hooks"), CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg crofiler_verif -Awarnings")
rc = 0
for d in sorted(glob.glob(os.path.join(ROOT, "harness", "*"))):
    if not os.path.exists(os.path.join(d, "src", "main.rs")): continue
    m = os.path.basename(d) == "ocm"
    rc |= subprocess.call(["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(ROOT, "build", "target-measure" if m else "target")], cwd=d,
                          env=dict(env, RUSTFLAGS="--cfg crofiler_verif_measure -Awarnings") if m else env)
rc |= subprocess.call(["cargo", "build", "--offline", "--quiet", "--locked", "--bin", "crofiler", "--config", "profile.dev.opt-level=1", "--config", "profile.dev.debug=false",
                       "--target-dir", os.path.join(ROOT, "build", "target")], cwd=os.environ.get("VERIF_REPO", "/repo"), env=env)
raise SystemExit(1 if rc else 0)
