#!/bin/bash
# tools/done.sh PNN "technique" "note": register a check, run it on seeds 1-3, commit
cd /verif; p=$1; l=$(echo $p | tr P p)
python3 tools/addtech.py $p "$2" "$3"; python3 tools/mkprops.py; python3 tools/mkmanifest.py
for s in 1 2 3; do VERIF_SEED=$s timeout 900 python3 checks/run.py $l 2>&1 | tail -3 | cut -c1-800; done
git add -A; git commit -qm "$p check"
