#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.txt and confirms each planted bug in scratch copies of /repo.
spec:  === <id> <property>
       needs: <text>
       breaks: <text>
       --- <file> / old text / +++ / new text      (repeated)
       @@@ [dir]                                    (test file follows; in directory dir of the repo, default .)
usage: mkseed.py [-n] [id...]   (-n: only write, do not confirm)"""
import threading, sys, os, glob, json, subprocess, shutil, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
DEMO = '''#!/bin/bash
# run in the repository; exits 0 when the property holds, non-zero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
d=$(mktemp -d) || exit 2
trap 'rm -r "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*_test.go.txt "$d/src/"
{ printf '{"Replace":{'; n=0
for f in "$d"/src/*.txt; do b=$(basename "$f" .txt); [ $n = 0 ] || printf ','; n=1
printf '"%%s":"%%s"' "$repo/%s/zz_demo_$b" "$f"; done; printf '}}'; } > "$d/o.json"
go test -vet=off -count=1 -timeout 120s -run '^TestDemo' -overlay "$d/o.json" %s ./%s
'''
def parse():
    out = []; cur = None; mode = None
    for fn in sorted(glob.glob(here + '/seeds/*.txt')):
        for l in open(fn):
            if l.startswith('=== '):
                i, p = l[4:].split(); cur = dict(id=i, prop=p, needs='', breaks='', edits=[], test='', dir='.', race=False); out.append(cur); mode = None
            elif l.startswith('needs: ') and mode is None: cur['needs'] = l[7:].strip()
            elif l.startswith('breaks: ') and mode is None: cur['breaks'] = l[8:].strip()
            elif l.startswith('--- ') and mode != 't': cur['edits'].append([l[4:].strip(), '', '']); mode = 1
            elif l.startswith('+++') and mode == 1: mode = 2
            elif l.startswith('@@@'):
                w = l[3:].split(); mode = 't'
                for x in w:
                    if x == 'race': cur['race'] = True
                    else: cur['dir'] = x
            elif mode == 't': cur['test'] += l
            elif mode: cur['edits'][-1][mode] += l
    return out
LOCK = threading.Lock()  # the tests listen on fixed ports
def sh(c, **k): return subprocess.run(c, shell=True, env=ENV, capture_output=True, text=True, **k)
def make(s, confirm):
    d = tempfile.mkdtemp(prefix='seed'); r = d + '/repo'
    try:
        sh('git clone -q /repo %s' % r)
        for f, old, new in s['edits']:
            t = open(r + '/' + f).read(); old = old.strip('\n'); new = new.strip('\n')
            if t.count(old) != 1: return s, 'BADEDIT %s %d matches: %s' % (f, t.count(old), old[:60])
            open(r + '/' + f, 'w').write(t.replace(old, new))
        x = sh('gofmt -l *.go */*.go', cwd=r)
        patch = sh('git diff', cwd=r).stdout
        # which changed lines are original ones?
        o = V + '/seeded/' + s['id']; os.makedirs(o, exist_ok=True)
        for f in os.listdir(o): os.remove(o + '/' + f)
        open(o + '/patch.diff', 'w').write(patch)
        open(o + '/demo.sh', 'w').write(DEMO % (s['dir'], '-race' if s['race'] else '', '' if s['dir'] == '.' else s['dir'])); os.chmod(o + '/demo.sh', 0o755)
        open(o + '/meta.json', 'w').write(json.dumps(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), indent=1) + '\n')
        open(o + '/bug_test.go.txt', 'w').write(s['test'].lstrip('\n'))
        if s['dir'] == '.': shutil.copy(here + '/seeds/harness_test.go', o + '/harness_test.go.txt')
        if not confirm: return s, 'written'
        dd = d + '/demo'; shutil.copytree(o, dd)
        b = sh('go build ./... && go vet -vettool=/bin/true ./... 2>/dev/null; go build ./...', cwd=r)
        if b.returncode: return s, 'NOBUILD ' + b.stderr[:500]
        x = sh('bash %s/demo.sh' % dd, cwd=r)
        bad = x.returncode
        out = x.stdout[-600:] + x.stderr[-600:]
        if bad == 0: return s, 'DEMO PASSES WITH THE BUG'
        if '[build failed]' in out or 'setup failed' in out: return s, 'DEMO NOBUILD ' + out
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        with LOCK: x = sh('go test -vet=off -count=1 -json ./...', cwd=r)
        passed = set()
        for l in x.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
        if st - passed: return s, 'BREAKS TESTS %s' % sorted(st - passed)
        sh('git checkout -q -- .', cwd=r)
        for _ in range(3):
            x = sh('bash %s/demo.sh' % dd, cwd=r)
            if x.returncode: return s, 'DEMO FAILS CLEAN ' + x.stdout[-800:] + x.stderr[-500:]
        return s, 'ok   ' + out.strip().splitlines()[0][:110] if out.strip() else 'ok'
    finally: shutil.rmtree(d)
def main():
    a = [x for x in sys.argv[1:] if x != '-n']
    ss = [s for s in parse() if not a or any(x in s['id'] for x in a)]
    with cf.ThreadPoolExecutor(4) as ex:
        for s, st in ex.map(lambda s: make(s, '-n' not in sys.argv), ss): print('%-28s %s %s' % (s['id'], s['prop'], st), flush=True)
main()
