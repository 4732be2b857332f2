#!/usr/bin/env python3
"""Development helper for /verif/seeded: `seed.py make ID` writes patch.diff from edits.py beside it (dev only),
`seed.py try ID [--no-tests]` confirms build, tests, demonstration and whether the property's quick check catches it."""
import json, os, subprocess, sys
R = "/repo"; S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def clean(): sh(f"git -C {R} checkout -- .")
def demo(i):
    try: r = sh(f"bash {S}/{i}/demo.sh", cwd=R, timeout=300); return r.returncode, (r.stdout + r.stderr).strip()[-300:]
    except subprocess.TimeoutExpired: return 99, "timeout"
def attempt(i, tests=True):
    m = json.load(open(f"{S}/{i}/meta.json")); out = {"id": i}
    rc, o = demo(i); out["demo clean"] = rc
    if rc: print(i, "DEMO FAILS ON CLEAN", o); return
    a = sh(f"git -C {R} apply {S}/{i}/patch.diff")
    if a.returncode: print(i, "does not apply", a.stderr); return
    try:
        rc, o = demo(i); out["demo patched"] = rc; out["demo says"] = o
        if tests:
            b = sh("bash /opt/vp/build.sh"); out["build"] = b.returncode
            t = sh("bash /opt/vp/test.sh /tmp/seed.json"); out["tests"] = t.stdout.strip().splitlines()[-1:]
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick /verif/bin/check {m['property']} --no-evidence"); out["check"] = c.returncode; out["check says"] = [l[:300] for l in c.stdout.splitlines() if "violation" in l.lower() or "held" in l]
    finally:
        clean()
    print(json.dumps(out, indent=1))
if __name__ == "__main__":
    for i in sys.argv[2:]:
        if i.startswith("--"): continue
        attempt(i, "--no-tests" not in sys.argv)
    if "--no-tests" not in sys.argv: sh("bash /opt/vp/build.sh")
