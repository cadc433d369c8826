#!/bin/bash
# fixedlog.sh PID "what": append a fixed entry for /repo's HEAD
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/known_findings.txt
