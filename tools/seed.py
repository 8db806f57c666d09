#!/usr/bin/env python3
"""seed.py ID [--check]: confirm a planted bug of /verif/seeded/ID in /repo (applied, then undone), optionally run its property's check."""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def stable(out):
    base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(out))
    return base, got
def main(i, check):
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json"))
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo dirty"
    sh("bash /opt/vp/build.sh"); p = sh(f"bash {d}/demo.sh", cwd=R, timeout=300); print(i, "clean demo:", p.returncode); ok = p.returncode == 0
    if not ok: print(p.stdout[-1500:], p.stderr[-1500:])
    a = sh(f"git -C {R} apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
    try:
        b = sh("bash /opt/vp/build.sh"); print(i, "build:", b.returncode); assert b.returncode == 0, b.stdout[-2000:] + b.stderr[-2000:]
        p = sh(f"bash {d}/demo.sh", cwd=R, timeout=300); print(i, "patched demo:", p.returncode, (p.stdout + p.stderr)[-300:]); ok &= p.returncode != 0
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); got = json.load(open("/tmp/seed_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("stable") or base.get("passing") or base.get("pass") or base.get("tests"); passed = set(got.get("passed") or got.get("pass") or [])
        miss = [n for n in names if n not in passed]; print(i, "stable tests broken:", miss); ok &= not miss
        if check:
            c = sh(f"python3 {V}/check.py run {meta['property']} --tier quick", cwd=V); print(i, "check:", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "FAILED" in l or "input" in l][:4])
    finally:
        sh(f"git -C {R} checkout -- ."); sh("bash /opt/vp/build.sh")
    print(i, "OK" if ok else "BAD")
for i in [x for x in sys.argv[1:] if not x.startswith("-")]: main(i, "--check" in sys.argv)
