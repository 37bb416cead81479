#!/usr/bin/env python3
"""mkbug.py SPEC.py...: create and confirm seeded bugs. A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)],
CRATES, DEMO. Confirms in /repo (with the official build and tests): demo passes without, fails with the patch."""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def clean(): sh("git -C /repo checkout -- .")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
specs = [runpy.run_path(p) for p in sys.argv[1:]]
def write(s):
    d = os.path.join(V, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
    for f, old, new in s["EDITS"]:
        p = "/repo/" + f; t = open(p).read()
        assert t.count(old) == 1, (s["ID"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    clean()
    open(d + "/demo.rs", "w").write(s["DEMO"])
    t = open(V + "/tools/demo_template%s.sh" % ("_net" if s["CRATES"] == "net" else "")).read().replace("@CRATES@", s["CRATES"]).replace("@ROCKS@", s.get("ROCKS", ""))
    open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    return d
try:
    ds = [(s, write(s)) for s in specs]
    b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout[-2000:]
    for s, d in ds:
        r = sh(d + "/demo.sh", cwd="/repo"); print(s["ID"], "unpatched demo:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
    for s, d in ds:
        assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0
        b = sh("bash /opt/vp/build.sh")
        if b.returncode != 0: print(s["ID"], "DOES NOT BUILD", b.stdout[-2000:]); clean(); continue
        r = sh(d + "/demo.sh", cwd="/repo")
        sh("bash /opt/vp/test.sh /tmp/mkbug.json"); t = json.load(open("/tmp/mkbug.json"))
        passed = set(t.get("passed", t.get("stable", [])))
        miss = stable - passed
        c = sh("python3 tools/check.py %s" % s["PROPERTY"], cwd=V)
        print(s["ID"], s["PROPERTY"], "demo:", r.returncode, "| tests failing:", sorted(miss)[:3], "| check exit:", c.returncode, [l for l in c.stdout.split("\n") if "no step" in l][:1] if c.returncode == 1 else c.stdout[-800:])
        clean()
finally:
    clean(); sh("bash /opt/vp/build.sh")
