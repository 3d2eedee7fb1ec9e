#!/bin/bash
# plant.sh <seed-dir> : confirms a planted bug in a scratch copy bind-mounted over /repo
# (own user+mount namespace): applies, builds, passes the tests, demo passes/fails as it must.
# plant.sh <seed-dir> check C01 [...] : also runs checks against it.
set -u
S=$(realpath "$1"); shift
W=/tmp/plant-$(basename "$S")-$$
cp -a /repo "$W"
cat > "$W.sh" <<EOS
mount --bind $W /repo
cd /repo; git checkout -q -- .
T=\$(mktemp -d /tmp/demoXXXX); cp -r $S/. \$T; rm -f \$T/patch.diff \$T/meta.json
if [ -z "${SKIP:-}" ]; then
bash \$T/demo.sh > $W.demo0 2>&1; d0=\$?
[ \$d0 = 0 ] || { echo "demo fails on the clean tree"; tail -5 $W.demo0; }
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash \$T/demo.sh > $W.demo1 2>&1; d1=\$?
tail -3 $W.demo1
bash /opt/vp/test.sh $W.json > $W.log 2>&1 || tail -20 $W.log
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$W.json"))
need=b if isinstance(b,list) else b.get("passed") or b.get("tests") or b.get("stable")
miss=[t for t in need if t not in set(r["passed"])]
print("demo clean \$d0 patched \$d1; tests missing:",miss, "->", "OK" if (\$d0==0 and \$d1!=0 and not miss) else "BAD")
P
else git apply $S/patch.diff; fi
cd /verif
for c in ${@:2}; do MC_JOBS=8 python3 mc/run.py \$c > $W.chk 2>&1; echo "check \$c exit \$?"; grep -h -A6 -m2 -e '^----' -e ERROR $W.chk | cut -c1-300 | head -12; grep VIOLATION $W.chk | head -1; done
case \$T in /tmp/demo????) find \$T -delete;; esac
EOS
unshare -Urm bash "$W.sh"
find "$W" "$W".* -delete 2>/dev/null
