#!/usr/bin/env python3
"""plant.py SPEC.py: turns a planted-bug spec into seeded/<id>/ after confirming it on /repo
(applied, built, stable tests, demonstration, the property's check) and undoing it.
A spec sets ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, and DEMO_C (or DEMO_SH + FILES)."""
import json, os, subprocess, sys, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
S = {"FILES": {}, "LIBS": "", "CXX": False}
exec(open(sys.argv[1]).read(), S)
flags = sys.argv[2:]
d = os.path.join(V, "seeded", S["ID"])
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
os.makedirs(d, exist_ok=True)
mini = open(os.path.join(V, "tools/mini.h")).read()
if "DEMO_C" in S:
    open(d + "/demo.c", "w").write(S["DEMO_C"].lstrip())
    open(d + "/mini.h", "w").write(mini)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
L=/repo/_build/src/onion
gcc -std=gnu11 -w -I/repo/src -I"$d" "$d/demo.c" -o "$t/demo" -L"$L" -lonion -Wl,-rpath,"$L" %s -lpthread || exit 98
cd "$t" && timeout 60 ./demo
''' % S["LIBS"])
else:
    open(d + "/demo.sh", "w").write(S["DEMO_SH"].lstrip())
for f, c in S["FILES"].items():
    open(os.path.join(d, f), "w").write(c.lstrip())
json.dump({"property": S["PROP"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
ok = True
def demo():
    r = sh("cd /repo && bash %s/demo.sh" % d)
    return r.returncode, r.stdout.decode(errors="replace")[-600:]
try:
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
    rc, o = demo()
    print("clean demo:", rc, o)
    ok &= rc == 0
    for f, a, b in S["EDITS"]:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(a) == 1, "%s: %d occurrences of %r" % (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
    root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.decode().split()[-1]
    mine = set(sh("git -C /repo log --format=%H --grep '^fix:' --grep '^hook'").stdout.decode().split())
    hits = 0
    for f in set(e[0] for e in S["EDITS"]):
        import re
        df = sh("git -C /repo diff -U0 -- %s" % f).stdout.decode(errors="replace")
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                bl = sh("git -C /repo blame -l -s -L %d,%d HEAD -- %s" % (a, a + n - 1, f)).stdout.decode(errors="replace")
                for l in bl.splitlines():
                    h = l.split()[0].lstrip("^")
                    if any(x.startswith(h) for x in mine): print("NOT ORIGINAL:", l[40:]); 
                    else: hits += 1
    print("original lines changed:", hits)
    ok &= hits > 0
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout.decode()[-2000:]); ok = False
    rc, o = demo()
    print("patched demo:", rc, o)
    ok &= rc != 0 and rc != 98
    if "notest" not in flags:
        sh("bash /opt/vp/test.sh /tmp/plant-out.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = set(json.load(open("/tmp/plant-out.json"))["passed"])
        print("tests missing:", sorted(base - got)[:5])
        ok &= not (base - got)
    r = sh("cd %s && python3 check.py run %s quick" % (V, S["PROP"]))
    print("check exit", r.returncode, "\n".join(r.stdout.decode(errors="replace").splitlines()[-4:]))
finally:
    sh("git -C /repo checkout -- .")
print("PLANT", S["ID"], "VALID" if ok else "INVALID", "caught" if r.returncode == 1 else "MISSED")
