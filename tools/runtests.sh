#!/bin/bash
# Runs the repository's tests and prints the stable ones which fail.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print('stable failing:', set(b['stable'])-set(o['passed']))"
