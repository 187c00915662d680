#!/usr/bin/env python3
"""mkseed.py SPEC.py [--no-check]: plants a bug in a scratch copy, confirms it (builds, tests pass,
demo fails with it and passes without), stores it in seeded/<id>/ and runs the property's check on it.
SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), FLAGS (optional)."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = runpy.run_path(sys.argv[1])
WT = "/tmp/seedwt"
if os.path.exists(WT): shutil.rmtree(WT)
subprocess.run(["git", "clone", "-q", "/repo", WT], check=True)
for f, old, new in s["EDITS"]:
    p = os.path.join(WT, f); t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
d = os.path.join(V, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", WT, "diff"], capture_output=True, text=True, check=True).stdout
shutil.rmtree(WT)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.cpp", "w").write(s["DEMO"])
for name, text in s.get("FILES", {}).items():
    os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True); open(os.path.join(d, name), "w").write(text)
flags = s.get("FLAGS", "")
runs = s.get("RUN", '"$T/demo"')
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -DEDYN_DEBUG -I include -I _build/include {flags} "$D/demo.cpp" _build/libEdyn.a -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 {runs}
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git status --porcelain").stdout.strip(), "dirty /repo"
sh("bash /opt/vp/build.sh")
r0 = sh(f"bash {d}/demo.sh"); print("demo clean:", r0.returncode, r0.stdout[-300:])
try:
    a = sh(f"git apply {d}/patch.diff"); assert a.returncode == 0, a.stdout
    b = sh("bash /opt/vp/build.sh"); print("build:", b.returncode, b.stdout[-1500:] if b.returncode else "")
    sh("bash /opt/vp/test.sh /tmp/seed_o.json"); o = json.load(open("/tmp/seed_o.json")); print("tests:", {k: (len(v) if isinstance(v, list) else v) for k, v in o.items()})
    r1 = sh(f"bash {d}/demo.sh"); print("demo planted:", r1.returncode, r1.stdout[-300:])
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0
    print("VALID" if ok else "INVALID")
    if "--no-check" not in sys.argv:
        c = subprocess.run(["python3", "check.py", s["PROP"]], cwd=V, capture_output=True, text=True)
        print("check:", c.returncode, "\n".join(c.stdout.splitlines()[-4:])[:1200], c.stderr[-300:])
finally:
    sh("git checkout -- ."); sh("bash /opt/vp/build.sh")
