#!/usr/bin/env python3
"""Confirms a planted change (seeded/<id>) in /repo: applies, builds, passes the stable tests, demo fails with it and passes without.
Then runs the named checks (default: the property's own) against it. /repo is restored at the end. Development tool; no check uses it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def one(i, checks, light):
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); res = {}
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "/repo dirty"
    if not light:
        assert sh("bash /opt/vp/build.sh").returncode == 0
        res["demo clean"] = sh(f"bash {d}/demo.sh", cwd="/repo").returncode
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stderr
        if not light:
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); o = json.load(open("/tmp/seed_out.json"))
            res["tests"] = (len(o["passed"]), o["failed"][:5])
            r = sh(f"bash {d}/demo.sh", cwd="/repo"); res["demo bug"] = r.returncode; res["demo msg"] = (r.stdout + r.stderr)[-200:]
        for c in checks or [meta["property"]]:
            if not os.path.exists(f"{V}/checks/{c}.py"): res[c] = "no check"; continue
            r = sh(f"python3 checks/{c}.py", cwd=V); res[c] = (r.returncode, [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][:3])
    finally:
        sh("git -C /repo checkout -- .")
    if not light: sh("bash /opt/vp/build.sh")
    ok = light or (res["demo clean"] == 0 and res["demo bug"] != 0 and not res["tests"][1])
    caught = [c for c in res if isinstance(res[c], tuple) and c.startswith("C") and res[c][0] == 1]
    print(f"{i}: {'OK' if ok else 'BAD'} caught_by={caught}")
    for k, v in res.items(): print("    ", k, str(v)[:500])
    sys.stdout.flush()
args = [a for a in sys.argv[1:] if not a.startswith("-")]
checks = [a[2:] for a in sys.argv[1:] if a.startswith("-c")]
for i in args or sorted(os.listdir(V + "/seeded")): one(i, checks, "-l" in sys.argv)
