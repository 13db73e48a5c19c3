#!/bin/bash
# tools/fixed.sh PNN "what failed": records the last commit of /repo as a repair
echo "fixed: property=$1 $(git -C /repo log -1 --format=%h) $2" >> /verif/known_findings.txt
