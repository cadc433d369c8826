#!/bin/bash
# allq.sh [seed] : every check, quick tier, one line each
cd /verif; s=${1:-1}
for f in checks/p[0-9][0-9].py; do p=$(basename $f .py); PYTHONHASHSEED=0 VERIF_SEED=$s /opt/venv/bin/python $f --tier quick > /tmp/allq.$p 2>&1; rc=$?; echo "$p rc=$rc $(tail -1 /tmp/allq.$p | cut -c1-150)"; done
