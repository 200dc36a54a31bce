#!/bin/bash
# seedtest.sh save ID          takes /repo's uncommitted change as seeded/ID/patch.diff, and undoes it
# seedtest.sh test ID [CHECK…] applies it, builds, runs the tests, the demonstration (also without it) and the checks
cmd=$1; id=$2; shift 2
D=/verif/seeded/$id
if [ "$cmd" = save ]; then
  mkdir -p "$D"
  git -C /repo diff > "$D/patch.diff"
  git -C /repo checkout -q -- .
  [ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
  # every removed line has to be one of the original repository
  git -C /repo diff --quiet || exit 1
  grep -h '^+++ b/' "$D/patch.diff" | cut -c7- | while read -r f; do
    python3 - "$f" "$D/patch.diff" <<'P'
import re, subprocess, sys
f, p = sys.argv[1:]
orig = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=-1).stdout.decode().split()[-1]
bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], stdout=-1).stdout.decode("utf8", "replace").split("\n")
cur = None
n = 0
for l in open(p, errors="replace"):
    if l.startswith("+++ "):
        cur = l[6:].strip()
    elif l.startswith("@@"):
        n = int(re.match(r"@@ -(\d+)", l).group(1))
    elif cur == f and l[0] in " -" and not l.startswith("---"):
        if l[0] == "-":
            h = bl[n - 1].split()[0].lstrip("^")
            print("%s %s" % ("original" if orig.startswith(h) else "MINE    ", l.rstrip()[:90]))
        n += 1
P
  done
  ls /verif/tools/demo/* -d | while read -r x; do [ -e "$D/$(basename "$x")" ] || cp -r "$x" "$D/"; done
  rm -rf "${D:?}/__pycache__"
  exit 0
fi
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo diff --quiet || { echo "/repo is not clean"; trap - EXIT; exit 1; }
cd /repo || exit 1
if [ -z "$NODEMO" ]; then
  timeout 300 bash "$D/demo.sh" > /tmp/seed.$id.clean 2>&1; echo "$id demo without: $?"
fi
git apply "$D/patch.diff" || exit 1
if [ -z "$NODEMO" ]; then
  bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1 || { echo "$id does not build"; exit 1; }
  bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.tests 2>&1
  python3 - $id <<'P'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/seed.%s.json" % sys.argv[1]))
base = b.get("passed") or b.get("stable") or b
bad = [x for x in base if x not in t["passed"]]
print(sys.argv[1], "tests:", len(t["passed"]), "passed, broken:", bad[:3])
P
  timeout 300 bash "$D/demo.sh" > /tmp/seed.$id.bad 2>&1; echo "$id demo with: $? $(tail -1 /tmp/seed.$id.bad | cut -c1-200)"
fi
[ $# -gt 0 ] || set -- "$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")"
cd /verif || exit 1
for c in "$@"; do
  timeout 900 python3 check.py "$c" quick > /tmp/seed.$id.$c 2>&1; rc=$?
  echo "$id check $c: $rc $(grep VIOLATION /tmp/seed.$id.$c | head -2 | cut -c1-200 | tr '\n' ' ')$(tail -1 /tmp/seed.$id.$c | cut -c1-160)"
done
