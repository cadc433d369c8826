#!/bin/bash
# run the stable tests on a scratch copy of /repo with the given seeded patches applied together
c=/tmp/pl/test_$$
mkdir -p /tmp/pl; cp -a /repo $c
for i in "$@"; do git -C $c apply /verif/seeded/$i/patch.diff || echo "CANNOT APPLY $i"; done
sed "s#/repo#$c#g" /opt/vp/test.sh > $c.test.sh
sed "s#/repo#$c#g; s#.*stamps.py.*#true#" /opt/vp/build.sh > $c.build.sh
sed -i "s#bash /opt/vp/build.sh#bash $c.build.sh#; s#export PYTHONPATH=/opt/vp/plugin#export PYTHONPATH=/opt/vp/plugin:$c#" $c.test.sh
sed -i 's#^import shenfun.*#import shenfun#; s#^assert .*##' $c.build.sh
bash $c.test.sh $c.json > $c.log 2>&1
/opt/venv/bin/python - $c.json <<'P'
import json, sys
r = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
st = b if isinstance(b, list) else b.get('passed') or b.get('stable') or b.get('tests')
ps = set(r['passed']); bad = [t for t in st if t not in ps]
print('stable', len(st), 'not passing', len(bad)); print('\n'.join(bad[:25]))
P
rm -rf "$c" "$c.json" "$c.test.sh" "$c.build.sh"
