#!/usr/bin/env python3
"""Development only: how much of a recorded trace does its specification decide?

usage: corrupt.py trace.Module.ndjson [lines] [seed]
Changes one recorded scalar (an observation) in each of some lines of an accepted trace and lets TLC read it again; prints the
changed lines it still accepts.  Each is either a change the library is allowed, or an observation nothing depends on.
"""
import copy, json, os, random, re, subprocess, sys, tempfile
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
path = sys.argv[1]
module = path.split(".")[-2]
want = int(sys.argv[2]) if len(sys.argv) > 2 else 200
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)


def leaves(x, at=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], at + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, at + (i,))
    else:
        yield at


def change(x):
    if isinstance(x, bool): return not x
    if isinstance(x, int): return x + rnd.choice([-1, 1]) if x > 0 else 1
    return x + "?"


INPUT = {"o", "a", "d", "s", "x", "y", "w", "v", "k", "at", "how", "op", "i", "cst", "by", "post", "nm", "n", "m", "t", "T"} if module != "TraceStore" else None
OUT = {"TraceCalls": ("r", "out", "ret", "old", "u", "s", "calls"), "TraceStore": ("m", "b", "s2", "r", "threw", "self"), "TraceIter": ("v", "p", "r"),
       "TraceSwizzle": ("r", "ix", "ds", "get", "it", "rt", "rk", "cnt", "len", "wr", "u"), "TraceCtor": ("r", "u", "ok", "threw", "m"), "TraceCx": ("r", "ct"),
       "TraceUtil": None}[module]
lines = open(path).read().splitlines()
idx = list(range(len(lines) - 1))
rnd.shuffle(idx)
what = {}
for n in sorted(idx[:want]):
    ev = json.loads(lines[n])
    if ev["o"] in ("init", "end", "new"): continue
    ls = [p for p in leaves(ev) if (p[0] in OUT if OUT else p[0] not in ("o", "q"))]
    if not ls: continue
    p = rnd.choice(ls)
    x = ev
    for k in p[:-1]: x = x[k]
    old = x[p[-1]]
    x[p[-1]] = change(old)
    lines[n] = json.dumps(ev, separators=(",", ":"))
    what[n + 1] = (p, old, x[p[-1]])
with tempfile.TemporaryDirectory() as d:
    t = os.path.join(d, "t.ndjson")
    open(t, "w").write("\n".join(lines) + "\n")
    r = subprocess.run(["java", "-Xmx3g", "-Xss64m", "-cp", TLA, "tlc2.TLC", "-workers", "1", "-metadir", d + "/m", "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"],
                       cwd=SPEC, env=dict(os.environ, TRACE=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = {int(x) for x in re.findall(r'"REJECT", (\d+)', r.stdout)}
    if "Error:" in r.stdout and "postcondition" not in r.stdout: print(r.stdout[r.stdout.find("Error:"):][:600])
print("%s: %d of %d changes rejected" % (os.path.basename(path), len(bad & set(what)), len(what)))
for n in sorted(set(what) - bad):
    print("  accepted %d %s: %r -> %r | %s" % (n, ".".join(map(str, what[n][0])), what[n][1], what[n][2], lines[n - 1][:300]))
