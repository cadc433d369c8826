#!/bin/bash
# dets.sh pNN [n]: n details per mechanism of the last run
grep -A1 "mech=" /tmp/$1.out | grep -v "^--" | sed 's/case=.*//' | paste - - | cut -c1-${W:-300} | sort | awk -v n=${2:-1} '{k=$1; c[k]++; if(c[k]<=n) print}' | head -${L:-60}
