#!/usr/bin/env python3
"""Writes ../MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
import checks
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/selftest.py',
         checks=[dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                      evidence_file='evidence/%s.json' % i, technique=checks.CHECKS[i]['technique'], level='model_checking',
                      level_note=checks.CHECKS[i]['level_note'] + ' Bounds: ' + checks.CHECKS[i]['bounds']) for i in ids if i in checks.CHECKS],
         not_applicable=[dict(property=i, reason='no check yet') for i in ids if i not in checks.CHECKS],
         notes='No hooks are needed in /repo: the checks use the public interface, instrumentation by the compiler and link-time interposition.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
