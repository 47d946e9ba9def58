#!/usr/bin/env python3
"""Development battery: applies each edit of battery.txt to a scratch copy of /repo, builds it, and runs the
checks on the copy. 'mut' edits must be reported by the named property, 'ref' edits by none.
usage: battery.py [name-substring...]"""
import sys, os, re, subprocess, shutil, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
def parse():
    out = []; cur = None; mode = None
    for l in open(os.path.join(here, 'battery.txt')):
        if l.startswith('=== '):
            kind, props, name = l[4:].split(None, 2)
            cur = dict(kind=kind, props=props.split(','), name=name.strip(), edits=[]); out.append(cur); mode = None
        elif l.startswith('--- '):
            cur['edits'].append([l[4:].strip(), '', '']); mode = 1
        elif l.startswith('+++') and mode == 1: mode = 2
        elif mode: cur['edits'][-1][mode] += l
    return out
def edit(s, old, new):
    """replace old by new; comment lines and blank lines of the file do not matter"""
    if s.count(old) == 1: return s.replace(old, new)
    sk = lambda l: not l.strip() or l.strip().startswith('//')
    ls = s.split('\n'); ix = [i for i, l in enumerate(ls) if not sk(l)]
    strip = lambda l: l.split(' // ')[0].strip()
    ol = [strip(l) for l in old.split('\n') if not sk(l)]
    if not ol: return None
    hits = [k for k in range(len(ix) - len(ol) + 1) if all(strip(ls[ix[k+j]]) == o for j, o in enumerate(ol))]
    if len(hits) != 1: return None
    a, z = ix[hits[0]], ix[hits[0] + len(ol) - 1]
    return '\n'.join(ls[:a] + new.split('\n') + ls[z+1:])
def run(b):
    d = tempfile.mkdtemp(prefix='batt')
    try:
        r = os.path.join(d, 'repo'); v = os.path.join(d, 'v'); os.makedirs(v + '/evidence')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '_examples', 'node_modules'))
        shutil.copy('/verif/known_findings.txt', v)
        for f, old, new in b['edits']:
            p = os.path.join(r, f); s = open(p).read()
            old = old.strip('\n'); new = new.strip('\n')
            t = edit(s, old, new)
            if t is None: return b, 'BADEDIT', '%s: %d matches of %r' % (f, s.count(old), old[:80])
            open(p, 'w').write(t)
        x = subprocess.run(['go', 'build', './...'], cwd=r, env=ENV, capture_output=True, text=True)
        if x.returncode: return b, 'NOBUILD', x.stderr[:600]
        ids = b['props'] if b['kind'] == 'mut' else ['all']
        x = subprocess.run([os.environ.get('CK','/tmp/ck')] + ids, cwd=v, env=dict(ENV, CHECKER_REPO=r, VERIF_DIR=v), capture_output=True, text=True)
        vs = re.findall(r'VIOLATION property=(\S+)', x.stdout)
        detail = '\n'.join('      ' + l for l in x.stdout.splitlines() if l.startswith('  ['))[:1500]
        if b['kind'] == 'mut': return b, ('caught' if vs else 'MISSED'), (detail.split('\n')[0] if vs else '')
        return b, ('quiet' if not vs and x.returncode == 0 else 'ALARM ' + ','.join(vs) + ('' if vs else ' rc=%d %s' % (x.returncode, x.stderr[-300:]))), detail
    finally: shutil.rmtree(d)
def main():
    bs = parse(); pats = sys.argv[1:]
    if pats: bs = [b for b in bs if any(p in b['name'] or p in b['props'] or p == b['kind'] for p in pats)]
    bad = 0
    with cf.ThreadPoolExecutor(6) as ex:
        for b, st, det in ex.map(run, bs):
            ok = st in ('caught', 'quiet')
            bad += not ok
            print('%-8s %s %s %s' % (st, b['kind'], ','.join(b['props']), b['name']))
            if det and (not ok or os.environ.get('V')): print(det)
    print(len(bs), 'edits,', bad, 'not as expected')
if __name__ == '__main__': main()
