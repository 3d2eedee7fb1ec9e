#!/usr/bin/env python3
"""mkseed.py ID < spec : spec = python dict literal with property, needs, breaks, edits=[(file, old, new[, nth])], demo (C++ source), extra flags"""
import sys, os, subprocess, json, shutil
sid = sys.argv[1]
spec = eval(sys.stdin.read())
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
w = "/tmp/mkseed-%d" % os.getpid()
subprocess.check_call(["git", "-C", os.environ.get("WREPO", "/repo"), "worktree", "add", "-q", "--detach", w, "HEAD"])
try:
    for e in spec["edits"]:
        p = os.path.join(w, e[0]); s = open(p).read(); n = s.count(e[1])
        nth = e[3] if len(e) > 3 else 0
        if n == 0 or (n > 1 and len(e) < 4):
            sys.exit("%s: %d matches" % (e[1], n))
        pos = -1
        for _ in range(nth + 1): pos = s.index(e[1], pos + 1)
        s = s[:pos] + e[2] + s[pos + len(e[1]):]
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
finally:
    subprocess.call(["git", "-C", os.environ.get("WREPO", "/repo"), "worktree", "remove", "--force", w])
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.cpp", "w").write(spec["demo"].lstrip())
fl = spec.get("flags", "")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is wrong
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++17 -w -I include %s "$here/demo.cpp" -o "$t/demo"%s || { rc=1; [ -d "$t" ] && find "$t" -delete; exit 99; }
timeout 60 "$t/demo"; rc=$?
find "$t" -delete
exit $rc
''' % (fl, spec.get("srcs", "")))
json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(d + "/meta.json", "w"), indent=1)
print(diff)
