#!/bin/sh
# Compiles the code under test and the scenarios with thread-sanitizer instrumentation (the runtime is ours).
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  extended_collections|crossbeam_epoch|crossbeam_utils|scen)
    exec "$rustc" "$@" -Zsanitizer=thread -Zshare-generics=off ;;
  *) exec "$rustc" "$@" ;;
esac
