#!/usr/bin/env python3
"""Development only (no check uses it): confirm a planted change in a scratch copy of /repo and keep it under seeded/.

usage: mkseed.py ID   with /tmp/seeds/ID.py defining PROP, EDITS [(old, new)...], NEEDS, BREAKS, DEMO (C++ main body file text)
"""
import json, os, subprocess, sys, shutil
ID = sys.argv[1]
g = {}
exec(open("/tmp/seeds/%s.py" % ID).read(), g)
SR = os.environ.get("SEED_SR", "/tmp/sr")
H = SR + "/include/dsga.hxx"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(SR):
    sh("cp -a /repo %s" % SR)
sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (SR, SR))
out = "/verif/seeded/" + ID
os.makedirs(out, exist_ok=True)
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O0 -w %s -I "$PWD/include" "$here/demo.cpp" -o "$tmp/demo" || exit 98
timeout 60 "$tmp/demo"
'''
open(out + "/demo.cpp", "w").write(g["DEMO"])
open(out + "/demo.sh", "w").write(DEMO_SH % g.get("FLAGS", ""))
os.chmod(out + "/demo.sh", 0o755)
r = sh("bash %s/demo.sh" % out, cwd=SR)
print("demo clean:", r.returncode, r.stdout[-1500:])
if r.returncode != 0:
    sys.exit("demo fails on the clean tree")
s = open(H).read()
for old, new, *nth in g["EDITS"]:
    k = s.count(old)
    if k == 0: sys.exit("not found: " + old[:80])
    if nth:
        pos = -1
        for _ in range(nth[0] + 1):
            pos = s.index(old, pos + 1)
        s = s[:pos] + new + s[pos + len(old):]
    else:
        if k != 1: sys.exit("%d occurrences of %r" % (k, old[:80]))
        s = s.replace(old, new)
open(H, "w").write(s)
d = sh("git -C %s diff" % SR).stdout
open(out + "/patch.diff", "w").write(d)
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
r = sh("bash %s/demo.sh" % out, cwd=SR)
print("demo patched:", r.returncode, r.stdout[-500:])
if r.returncode in (0, 98, 99):
    sys.exit("demo does not show the bug")
if "--notest" not in sys.argv:
    r = sh("mkdir -p SRb && cmake -S SR -B SRb -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ >/dev/null && ninja -C SRb dsga && SRb/dsga -m".replace("SR", SR))
    r2 = sh(SR + "b/dsga")
    print("tests:", r.returncode, r2.returncode, r2.stdout[-400:])
    if r.returncode != 0 and r2.returncode != 0:
        print(r.stdout[-1500:])
        sys.exit("tests notice it")
if "--nocheck" in sys.argv:
    sh("git -C %s checkout -q -- ." % SR)
    sys.exit()
r = sh("DSGA_REPO=%s python3 /verif/tools/check.py %s --tier quick" % (SR, g["PROP"]), cwd="/verif")
print("check:", r.returncode, r.stdout[-900:])
sh("git -C %s checkout -q -- ." % SR)
