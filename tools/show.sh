#!/bin/bash
# tools/show.sh FILE...: the essential part of replay files
for f in "$@"; do echo "=== $f"; sed -n '/^-- operations/,/^-- TLC/p' "$f" | cut -c1-${W:-300} | grep -v "^Shadow\|^  0x\|^=>0x\|^  [A-Z][a-z]* .*: *f\|^=====\|Addressab\|Partially\|libc.so\|_start\|^ABORT\|^==.*ABORTING" | head -${N:-24}; done
