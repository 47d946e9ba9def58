#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: checks for the claimed properties, reasons for the others."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C27': 'Order of arrival between two processes depends on the scheduler, the kernel and the network; the two static halves (whole frames written one at a time, C19; one reader handling in read order, C26) are claimed separately, their composition across the network is not decidable from the source.',
 'C28': 'Uniqueness of generated IDs is a probabilistic property of a random generator in a dependency (uuid) and of user supplied generators; no static argument bounds it.',
 'C29': 'Eventual delivery across nodes is a liveness property of an external broker (redis, nats) and the network; the source only decides what is published and subscribed (C17, C18).',
}
T = {
}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in NA: continue
    if p not in T:
        NA[p] = 'No check is registered for it yet.'
        continue
    t, note = T[p]
    checks.append(dict(property=p, quick_cmd='bash run.sh ' + p, thorough_cmd='VERIF_TIER=thorough bash run.sh ' + p,
        evidence_file='evidence/%s.json' % p, technique=t, level='other', level_note=note))
m = dict(version=1, setup_cmd='bash run.sh build', checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)],
  notes='Static analysis only: path-sensitive abstract interpretation and typestate rules over the SSA form of the type-checked program; see DESIGN.md.')
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(NA), 'not applicable')
