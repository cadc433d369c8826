#!/bin/bash
# summ.sh pNN args...: run a check and summarise mechanisms
p=$1; shift
cd /verif; /opt/venv/bin/python checks/$p.py "$@" > /tmp/$p.out 2>&1
tail -1 /tmp/$p.out | cut -c1-400
grep "mech=" /tmp/$p.out | sed 's/ case=.*//' | sort | uniq -c | sort -rn | head -${LINES_MAX:-60}
