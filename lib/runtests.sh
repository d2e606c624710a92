#!/bin/bash
# runs the repository's stable tests and says which of them fail
O=/tmp/vf_tests.json
bash /opt/vp/test.sh $O > /tmp/vf_tests.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/vf_tests.json'))
p=set(o.get('passed',o.get('pass',[])))
print('not passing:',[x for x in b if x not in p], 'of', len(b))
PY
