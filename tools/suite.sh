#!/bin/bash
# Run the repository's tests and list the stable ones that do not pass.
bash /opt/vp/test.sh /tmp/suite_out.json > /tmp/suite.log 2>&1
python3 - <<'E'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/suite_out.json'))
print("stable", len(b['stable']), "not passing:", [t for t in b['stable'] if t not in o['passed']])
E
