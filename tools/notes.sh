#!/bin/bash
# which checks meet constructs outside the analysed subset on this tree (each weakens what they can report)
cd "$(dirname "$0")/.."
for i in $(node -e "import('./checks/index.mjs').then(m=>console.log(Object.keys(m.suites).sort().join(' ')))"); do (VERIF_NOTES=1 node run.mjs $i | grep '^NOTED' | sed "s/^/$i /" | cut -c1-${1:-400}) & done; wait
