#!/usr/bin/env python3
"""List the stable tests of /opt/vp/BASELINE.json which an output of test.sh lacks."""
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-o)
print(len(b),'stable;',len(m),'missing')
for x in m[:60]: print(x)
