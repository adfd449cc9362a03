#!/bin/bash
# every check in parallel; prints one line each (usage: tools/all.sh [ids...])
cd "$(dirname "$0")/.."
ids=${*:-$(node -e "import('./checks/index.mjs').then(m=>console.log(Object.keys(m.suites).sort().join(' ')))")}
for i in $ids; do (o=$(node run.mjs $i 2>&1); rc=$?; echo "$i rc=$rc $(echo "$o" | tail -1 | cut -c1-150)") & done; wait
