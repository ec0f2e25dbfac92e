#!/bin/bash
# usage: tools/try.sh NAME PATCH|-rCOMMIT ID [ID..] -- [check options]
# Runs checks against a scratch copy of /repo with a patch applied (or a commit reverted); removes the copy.
name=$1; patch=$2; shift 2
ids=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do ids+=("$1"); shift; done; shift
w=/tmp/try/$name; rm -rf "$w"; mkdir -p "$w"
git clone -q /repo "$w/repo" || exit 3
( cd "$w/repo" && case $patch in -r*) git -c user.name=x -c user.email=x@x revert --no-edit "${patch#-r}" >/dev/null || exit 1;; -) ;; *) git apply "$patch" || exit 1;; esac ) || { echo "$name: PATCH FAILED"; exit 3; }
mkdir "$w/verif"; cp /verif/build.sh /verif/check.sh "$w/verif/"
mkdir "$w/verif/dst"; (cd /verif/dst && cp -r Cargo.toml Cargo.lock rustc-wrap.sh scen simrt src "$w/verif/dst/"); cp /verif/known-findings.txt "$w/verif/" 2>/dev/null
sed -i "s#/repo#$w/repo#" "$w/verif/dst/scen/Cargo.toml"
cp -a /verif/dst/target "$w/verif/dst/target"
for id in "${ids[@]}"; do
  out=$("$w/verif/check.sh" "$id" quick "$@" 2>&1); rc=$?
  echo "$name $id rc=$rc $(echo "$out" | grep -m1 '^minimised' | cut -c1-260)"
  [ $rc -gt 1 ] && echo "$out" | grep -A5 '^error\|HARNESS' | head -20
done
rm -rf "$w"
