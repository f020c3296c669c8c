#!/bin/sh
# Warm the build cache: everything is rebuilt by the checks from /repo.
cd "$(dirname "$0")" || exit 1
t=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
for d in harness/cmd/*/; do
  n=$(basename "$d")
  python3 build.py "$n" "$t/$n" || echo "setup: $n does not build" >&2
done
rm -rf "$t"
exit 0
