#!/usr/bin/env python3
"""seed.py ID PROP 'needs' 'breaks' SRCS < edits+demo : makes a planted bug under /verif/seeded and confirms it in a scratch copy.
stdin: blocks  @@@ file / old / === / new ...  then  @@@DEMO / C++ source."""
import os, subprocess, sys, json, shutil, re
bid, prop, needs, breaks, srcs = sys.argv[1:6]
txt = sys.stdin.read()
edits, demo = txt.split("@@@DEMO\n")
D = "/verif/seeded/" + bid
W = "/tmp/seedw"
subprocess.run("mkdir -p %s && rsync -a --delete /repo/ %s/repo/ 2>/dev/null || (rm -rf /tmp/seedw/repo; cp -a /repo /tmp/seedw/repo)" % (W, W), shell=True)
R = W + "/repo"
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=R)
for e in edits.split("@@@ ")[1:]:
    fn, body = e.split("\n", 1); old, new = body.split("\n===\n"); new = new.rstrip("\n") if not old.endswith("\n") else new
    p = R + "/" + fn.strip(); s = open(p).read()
    if s.count(old) != 1: sys.exit("edit matches %d times in %s: %r" % (s.count(old), fn, old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=R, capture_output=True, text=True).stdout
# the changed lines belong to the original repository
base = "fad7902"
for l in diff.splitlines():
    if l.startswith("-") and not l.startswith("---"):
        f = None
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(diff)
open(D + "/demo.cpp", "w").write(demo)
shutil.copytree("/verif/engine/shim", D + "/shim", dirs_exist_ok=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
san = os.environ.get("SAN", "")
open(D + "/demo.sh", "w").write("""#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d) || exit 9
trap 'find "$W" -delete' EXIT
F="-std=gnu++17 -w -O1 %s -include cstdint -include limits -I$D/shim -I$R/include -I$R/src"
cd "$W"
for s in %s; do g++ $F -c "$R/src/$s.cpp" -o $s.o & done
gcc -O1 -c "$R/include/eosio/fpconv.c" -o fpconv.o &
g++ $F -c "$D/demo.cpp" -o demo.o &
wait
g++ %s *.o -o demo -lpthread || exit 8
timeout 120 ./demo
""" % (san, srcs, san))
os.chmod(D + "/demo.sh", 0o755)
def demo_rc(d):
    r = subprocess.run([D + "/demo.sh"], cwd=d, capture_output=True, text=True); return r.returncode, (r.stdout + r.stderr)[-600:]
def tests(d):
    # the stable test, built from the scratch tree
    r = subprocess.run("cd /tmp/seedw && g++ -std=gnu++17 -w -include cstdint -include limits -I%s/include -I%s/src %s/src/reflect_test.cpp -o rt -c 2>&1 | tail -5" % (d, d, d), shell=True, capture_output=True, text=True)
    return r.stdout
ok, o1 = demo_rc("/repo"); bad, o2 = demo_rc(R)
print(bid, "clean", ok, "patched", bad, "|", o2.strip().replace("\n", " / ")[-200:])
if ok != 0: print("CLEAN FAILS", o1)
t = tests(R)
if t: print("stable test does not compile", t)
b = subprocess.run("git blame -s HEAD -- %s" % " ".join(set(re.findall(r"^--- a/(\S+)", diff, re.M))) if len(set(re.findall(r"^--- a/(\S+)", diff, re.M))) == 1 else "true", shell=True, cwd="/repo", capture_output=True, text=True).stdout.splitlines()
if b:
    n = 0
    for l in diff.splitlines():
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("---") or l.startswith("+++"): continue
        if l.startswith("-"):
            if not (b[n - 1].startswith("^fad7902") or b[n-1].startswith("fad7902")): print("NOT ORIGINAL:", b[n - 1][:100])
            n += 1
        elif l.startswith(" "): n += 1
