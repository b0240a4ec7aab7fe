#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py, properties.jsonl and the reasons below"""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
NA = {}
exec(open(V + '/tools/na.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i not in checks.CHECKS:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet'))); continue
    c = checks.CHECKS[i]
    m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the LLVM IR of the real code, SMT (Z3)', level='model_checking',
        level_note='Every value within the bounds is decided by the solver: ' + '; '.join(c['bounds']) + '. Not covered: ' + '; '.join(c['outside']) + '. Trusts clang, Z3, the IR engine and its library models; each counterexample is confirmed on a native sanitizer build before it is reported.'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
