#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the evidence of the last run and the seeded changes."""
import json, os, sys, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from techniques import T
import notes
def rd(n): return open(os.path.join(here, 'design', n)).read()
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
out = [rd('head.md'), '\n## 2. Cost and bounds\n\n',
 'Bounds: none on inputs, histories or schedules; loops are generalised, call depth is bounded only by recursion (a '
 'recursive repository call is an event). A function whose exploration exceeds the path limit is reported, not cut.\n\n',
 '## 3. The properties\n\nFor each: how it is decided, what is enumerated, and why tests do not reach it. The rules '
 'are the ones the check itself reports.\n']
man = json.load(open(root + '/MANIFEST.json'))
na = {x['property_id'] if 'property_id' in x else x.get('property', x.get('id')): x for x in man.get('not_applicable', [])}
for p in props:
    i = p['id']
    out.append('\n### %s %s\n\n' % (i, p['title']))
    if i not in T:
        out.append('Not applicable: %s\n' % na[i]['reason']); continue
    t, n = T[i]
    n = n.split('reflection or unsafe. ', 1)[-1].strip()
    e = json.load(open(root + '/evidence/%s.json' % i)); c = e['coverage']
    out.append('*Technique:* %s.%s\n\n' % (t, ' ' + n if n else ''))
    out.append('*Analysed on the current tree:* %d abstract paths from %d entry points, %d functions; %d obligations.\n\n' % (
        c['abstract_paths'], len(c['entry_points']), c['functions_analysed'], c['obligations']))
    out.append('*Rules:*\n\n')
    for k, v in sorted(c['rules'].items()): out.append('* `%s` — %s\n' % (k, v))
    for a in e.get('assumptions') or []: out.append('* assumption: %s\n' % a)
    out.append('\n*Quantifies over:* %s. *Why tests cannot settle it:* %s.\n' % (p['quantifier']['text'].rstrip('.'), p['why_tests_cant'].rstrip('.')))
out.append('\n' + rd('tail.md'))
out.append('\n| change | property | needs | reported by its check |\n|---|---|---|---|\n')
for s in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(root + '/seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |\n' % (s, m['property'], m['needs'].replace('|', '/'), notes.CAUGHT.get(s, 'yes')))
bt = open(here + '/battery.txt').read()
per = {}
for k, ps in re.findall(r'(?m)^=== (mut|ref) (\S+) ', bt):
    for q in ps.split(','): per[(k, q)] = per.get((k, q), 0) + 1
out.append('\nBattery: %d edits that keep the behaviour (all quiet); edits that break a property, all reported: %s.\n' % (
    per.get(('ref', '-'), 0), ', '.join('%s %d' % (q, n) for (k, q), n in sorted(per.items()) if k == 'mut')))
out.append(rd('limits.md'))
open(root + '/DESIGN.md', 'w').write(''.join(out))
