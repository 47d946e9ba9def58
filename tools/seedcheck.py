#!/usr/bin/env python3
"""Runs the checks on scratch copies of /repo with each planted bug applied: which properties report it."""
import sys, os, re, json, glob, subprocess, shutil, tempfile, concurrent.futures as cf
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
allp = '-a' in sys.argv; pats = [x for x in sys.argv[1:] if x != '-a']
def run(o):
    i = os.path.basename(o); p = json.load(open(o + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='sc')
    try:
        r = d + '/repo'; v = d + '/v'; os.makedirs(v + '/evidence'); shutil.copy('/verif/known_findings.txt', v)
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        x = subprocess.run(['git', 'apply', o + '/patch.diff'], cwd=r, capture_output=True, text=True)
        if x.returncode: return i, p, 'NOAPPLY ' + x.stderr, ''
        x = subprocess.run([os.environ.get('CK','/tmp/ck')] + (['all'] if allp else [p]), cwd=v, env=dict(ENV, CHECKER_REPO=r, VERIF_DIR=v), capture_output=True, text=True)
        vs = re.findall(r'VIOLATION property=(\S+)', x.stdout)
        det = [l for l in x.stdout.splitlines() if l.startswith('  [')]
        return i, p, ('caught' if p in vs else 'MISSED') + ' ' + ','.join(vs), det[0][:160] if det else x.stderr[-200:]
    finally: shutil.rmtree(d)
os_ = [o for o in sorted(glob.glob('/verif/seeded/*')) if not pats or any(x in o for x in pats)]
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(run, os_): print('%-28s %s %s\n      %s' % r, flush=True)
