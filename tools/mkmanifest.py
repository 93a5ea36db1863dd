#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/units.py and lib/meta.py."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import units, meta
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE).stdout.decode()
hooks = [l.split()[0] for l in hooks.splitlines() if 'DETOOLS_VERIFY' in l]
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='DETOOLS_VERIFY',
                    enable='-DDETOOLS_VERIFY -I/verif/include (goto-cc, in lib/prove.py): loop contracts only, no executable code',
                    source_commits=hooks[::-1]),
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in units.PROPS:
        m['checks'].append(dict(
            property=i,
            quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique=meta.technique(i),
            level=meta.level(i),
            level_note=meta.note(i)))
    else:
        m['not_applicable'].append(dict(property=i, reason=meta.NOT_APPLICABLE.get(i, 'no check built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
