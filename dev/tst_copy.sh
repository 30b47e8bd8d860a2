#!/bin/bash
# dev/tst_copy.sh DIR : the stable tests, in a scratch copy of the repository
D=$1; N=$(basename $D)
mkdir -p /tmp/w
sed -e "s#cd /repo#cd $D#" -e "s#/opt/vp/reports#/tmp/w/reports#" /opt/vp/test.sh > /tmp/w/test_$N.sh
bash /tmp/w/test_$N.sh /tmp/w/out_$N.json > /tmp/w/test_$N.log 2>&1
python3 - $N <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out_%s.json'%sys.argv[1]))
p=set(o.get('passed',[])); m=[x for x in b['stable'] if x not in p]
print('MISSING', len(m), m[:6]); sys.exit(bool(m))
P
