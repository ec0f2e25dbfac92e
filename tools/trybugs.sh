#!/bin/bash
# usage: tools/trybugs.sh SECS ID.. - runs the check of the property of each planted bug against it
secs=$1; shift
for id in "$@"; do
  p=$(echo "${id%%-*}" | tr a-z A-Z)
  /verif/tools/try.sh "$id" "/verif/seeded/$id/patch.diff" "$p" -- --secs "$secs" | cut -c1-200
done
