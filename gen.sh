#!/bin/bash
# Regenerates the native table of harnesses of each harness package.
cd "$(dirname "$0")/harness"
for p in hd ht hw hs; do
  [ -d $p ] || continue
  {
    echo "package $p"; echo
    echo "// Generated by gen.sh."
    echo "var Harnesses = map[string]func(){"
    grep -ho '^func \(C[0-9][0-9]_[A-Za-z0-9_]*\|KF_[A-Za-z0-9_]*\)()' $p/*.go | sed 's/^func \(.*\)()/\t"\1": \1,/' | sort
    echo "}"
  } > $p/table_test.go
done
