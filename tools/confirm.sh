#!/bin/bash
# usage: tools/confirm.sh ID.. - per planted bug: repository's tests with the patch, demo without and with it (scratch copies)
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/confirm/$id; rm -rf "/tmp/confirm/$id"; mkdir -p "$w"
  cp -a /repo "$w/repo"; rm -rf "$w/repo/target/nextest"
  ( cd "$w/repo" && git checkout -q -- . && git apply "$s/patch.diff" ) || { echo "$id PATCH FAILED"; rm -rf "$w"; continue; }
  sed "s#/repo#$w/repo#g" /opt/vp/build.sh >"$w/build.sh"; sed "s#/repo#$w/repo#g" /opt/vp/test.sh >"$w/test.sh"
  if ! bash "$w/build.sh" >"$w/log" 2>&1; then echo "$id BUILD FAILED"; tail -5 "$w/log"; rm -rf "$w"; continue; fi
  bash "$w/test.sh" "$w/out.json" >"$w/testlog" 2>&1
  t=$(python3 - "$w/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
k=[k for k in b if isinstance(b[k],list) and len(b[k])>100][0]
m=[t for t in b[k] if t not in set(o['passed'])]
print("missing",len(m),m[:4])
P
)
  d="no demo"
  if [ -f "$s/demo.sh" ] && [ -z "$NODEMO" ]; then
    mkdir "$w/demo"; cp -r "$s"/. "$w/demo/"; rm -f "$w/demo/"*.diff "$w/demo/meta.json"
    ( cd /repo && timeout 300 bash "$w/demo/demo.sh" >"$w/d0" 2>&1 ); r0=$?
    ( cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/d1" 2>&1 ); r1=$?
    d="demo unpatched=$r0 patched=$r1 ($(tail -1 "$w/d1" | cut -c1-120))"
    [ $r0 != 0 ] && tail -5 "$w/d0"
  fi
  echo "$id tests: $t $d"
  rm -rf "/tmp/confirm/$id"
done
