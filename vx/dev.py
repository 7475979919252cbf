"""dev helper: python3 -m vx.dev <unit> [extra verus args]"""
import sys, importlib
sys.path.insert(0, "/verif")
from vx.unit import run_unit
def main():
    m = importlib.import_module("proofs." + sys.argv[1])
    fname = "make" if len(sys.argv) < 3 or sys.argv[2].startswith("-") else sys.argv[2]
    r = run_unit(getattr(m, fname), canary="-c" not in sys.argv)
    print(r["status"], r["reason"], "verified", r["verified"], "obl", r["obligations"], "smt", r["smt_ms"], "wall", round(r["wall"],1), r.get("canaries"))
    for e in r["errors"]: print(e["rendered"])
    if not r["errors"] and r["status"]!="verified": print(r.get("raw","")[-3000:])
    for f in sorted(r.get("funcs",[]), key=lambda f:-f[2])[:6]: print(f)
    if "-r" in sys.argv:
        for k,v in r["rewrites"].items(): print(v,k)
main()
