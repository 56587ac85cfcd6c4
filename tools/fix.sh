#!/bin/bash
# fix.sh PROPERTY "subject" "what failed": commit the current /repo diff as one fix and record it
set -e
cd /repo; git commit -qam "fix: $2"; h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt; tail -1 /verif/known_findings.txt
