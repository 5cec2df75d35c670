#!/usr/bin/env python3
"""development: the classes of cases of the last dev.sh run"""
import json
for r in json.load(open('/tmp/verif-dev/s/out.json')):
    print(r['test'],r['evaluations'],r['discarded'],len(r['nontrivial_hashes'] or []))
    for k,v in sorted(r['classes'].items()): print('   ',k,v)
