#!/usr/bin/env python3
"""trybug.py ID...: confirm planted bugs (stable tests pass, demo fails with the patch and passes without) and run
the property's quick check against each.  Applies the patch to /repo and undoes it."""
import json, os, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
nodemo = "--nodemo" in sys.argv
for pid in [a for a in sys.argv[1:] if not a.startswith("-")]:
    d = os.path.join(R, "seeded", pid)
    m = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    out = []
    if not nodemo:
        r = sh(f"cd /repo && bash {d}/demo.sh")
        out.append("demo clean=%d" % r.returncode)
        if r.returncode: out.append(r.stdout[-500:] + r.stderr[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        print(pid, "PATCH DOES NOT APPLY", a.stderr); continue
    try:
        if not nodemo:
            b = sh("bash /opt/vp/build.sh")
            out.append("build=%d" % b.returncode)
            if b.returncode: out.append(b.stderr[-1500:])
            f = tempfile.mktemp()
            sh(f"bash /opt/vp/test.sh {f}")
            t = json.load(open(f))
            passed = set(t.get("passed", []) if isinstance(t.get("passed"), list) else [k for k, v in t.items() if v in ("pass", "passed", True)])
            miss = [x for x in base if x not in passed]
            out.append("tests missing=%d" % len(miss))
            r = sh(f"cd /repo && bash {d}/demo.sh")
            out.append("demo bug=%d (%s)" % (r.returncode, (r.stdout + r.stderr).strip().split("\n")[-1][:200]))
        for p in [m["property"]] + [x[7:] for x in sys.argv if x.startswith("--also=")]:
            r = sh(f"cd {R} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p} quick")
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            out.append(f"check {p}={r.returncode} {len(v)} violations: " + (r.stdout.strip().split("\n")[0][:300] if r.stdout.strip() else r.stderr[-300:]))
    finally:
        sh("git -C /repo checkout -- .")
    print(pid, "|", "\n   ".join(out), flush=True)
