#!/bin/bash
# tools/mc.sh MODULE CFG: run one exhaustive configuration by hand and print the essentials.
cd "$(dirname "$0")/../spec"
m=$(mktemp -d)
t0=$(date +%s)
timeout ${TMO:-600} tlc -workers ${W:-6} -config $2 -metadir $m -noGenerateSpecTE $1.tla > $m/o 2>&1
grep -v '^<<"@E\|^Pars\|^Sem\|^Lint\|^Progress\|^Starting\|^Comput\|^Finished\|^Running\|^TLC2\|^  calc\|^  based\|^Warning: Please\|^(Use\|^Implied' $m/o | tail -${N:-30}
echo "edges $(grep -c '^<<"@E' $m/o), $(( $(date +%s) - t0 )) s"
rm -rf $m
