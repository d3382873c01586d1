#!/bin/bash
# Usage: newseed.sh ID PROPERTY PKGDIR NEEDS BREAKS  — reads a patch script from stdin (python: edit(path, old, new)).
# The demonstration test is taken from /tmp/seed/demo_test.go. Works in a scratch copy of /repo.
set -u
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
base=/tmp/seed/$id
rm -rf "/tmp/seed/$id"; mkdir -p "$base"
cp -a /repo "$base/repo"
cat > "$base/edit.py"
cd "$base/repo"
python3 - "$base/edit.py" <<'PY' || { echo "EDIT FAILED"; exit 1; }
import sys
def edit(path, old, new, count=1):
    s=open(path).read()
    if s.count(old)<1: raise SystemExit("no match in %s: %r"%(path,old))
    if count==1 and s.count(old)!=1: raise SystemExit("%d matches in %s: %r"%(s.count(old),path,old))
    s=s.replace(old,new)
    open(path,"w").write(s)
exec(open(sys.argv[1]).read())
PY
gofmt -l . | head
git diff > "$base/patch.diff"
# only lines of the original repository count
git diff -U0 --name-only | while read f; do
	git diff -U0 -- "$f" | sed -n 's/^@@ -\([0-9]*\),\{0,1\}\([0-9]*\) .*/\1 \2/p' | while read a n; do
		[ "$n" = 0 ] && continue
		git -C /repo blame -s -L "$a,+${n:-1}" -- "$f" | grep -v '^\^\{0,1\}e07ec26' | sed "s|^|NOT ORIGINAL $f: |"
	done
done
go build ./... || { echo "BUILD FAILED"; exit 1; }
go test -timeout 60s ./... 2>&1 | grep -v "no test files" | grep -v "^ok" | head -20 > "$base/test.log"
if [ -s "$base/test.log" ]; then echo "EXISTING TESTS FAIL"; cat "$base/test.log"; exit 1; fi
out=/verif/seeded/$id
mkdir -p "$out"
cp "$base/patch.diff" "$out/patch.diff"
cp /tmp/seed/demo_test.go "$out/demo_test.go"
echo "$pkg" > "$out/pkg"
cat > "$out/demo.sh" <<'D'
#!/bin/bash
# Runs the demonstration test inside the package with an overlay: 0 if the property holds, 1 otherwise.
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
pkg=$(cat "$dir/pkg")
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$(cd "$pkg" && pwd)" "$dir" > "$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run 'TestDemo$' "./$pkg"
D
chmod +x "$out/demo.sh"
python3 - "$out/meta.json" "$prop" "$needs" "$breaks" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
PY
(cd /repo && bash "$out/demo.sh" > "$base/demo0.log" 2>&1); r0=$?
(cd "$base/repo" && bash "$out/demo.sh" > "$base/demo1.log" 2>&1); r1=$?
echo "demo unchanged=$r0 patched=$r1"
if [ $r0 -ne 0 ] || [ $r1 -eq 0 ]; then echo "DEMO BAD"; tail -n 20 "$base/demo0.log"; tail -n 20 "$base/demo1.log"; rm -rf "/verif/seeded/$id"; exit 1; fi
VERIF_REPO="$base/repo" VERIF_DIR=/tmp/seed/verif /verif/bin/verif check "$prop" quick > "$base/check.log" 2>&1; rc=$?
echo "check $prop exit=$rc"; grep -v "^ *at" "$base/check.log" | cut -c1-300 | head -3
rm -rf "/tmp/seed/$id"
