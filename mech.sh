#!/bin/bash
# mech.sh pNN pattern [n]: the details of violations whose mechanism matches
grep -A40 "mech=[^ ]*$2" /tmp/$1.out | awk -v n=${3:-2} '/mech=/{c++} c>n{exit} {print}' | grep -v "/opt/venv\|^ *[~^]*$" | cut -c1-${W:-260} | head -${L:-30}
