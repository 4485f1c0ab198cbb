#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from the definitions in seeds/*.py (edits against /repo's HEAD plus a demo).
usage: mkseeds.py [id...]   confirm: each is built, passes the stable tests, and its demo is run with and without it (in /tmp)."""
import json, os, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off', GOCACHE='/root/.cache/go-build')
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: the planted bug shows. Run with cwd = the repository.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
cp "$d/demo_test.go.txt" "$t/demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$t/demo_test.go\\"}}" > "$t/o.json"
timeout 250 go test %(flags)s -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s > "$t/out" 2>&1
rc=$?
tail -n 25 "$t/out"
exit $rc
'''
seeds = []
def seed(id, prop, pkg, needs, breaks, edits, demo, flags=''):
    seeds.append(dict(id=id, prop=prop, pkg=pkg, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))

def sh(cmd, cwd, env=ENV, t=400):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

W = '/tmp/seedwork'
b = json.load(open('/opt/vp/BASELINE.json'))
BASEFAIL = {'TestConfig_ParseConfFile'}
def main():
    want = sys.argv[1:]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
    base = '0578c7f'
    bad = 0
    for s in seeds:
        if want and s['id'] not in want: continue
        d = V + '/seeded/' + s['id']
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=W)
        for path, old, new in s['edits']:
            p = W + '/' + path
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT DOES NOT APPLY', path, t.count(old), repr(old[:60])); bad = 1; break
            open(p, 'w').write(t.replace(old, new))
        else:
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            diff = subprocess.check_output(['git', 'diff'], cwd=W, text=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO % s); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo_test.go.txt', 'w').write(s['demo'])
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            # removed lines must be original ones
            own = []
            for path in {e[0] for e in s['edits']}:
                old = subprocess.check_output(['git', 'show', 'HEAD:' + path], cwd=W, text=True).split('\n')
                orig = subprocess.check_output(['git', 'show', base + ':' + path], cwd=W, text=True).split('\n')
                rem = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
                own += [l for l in rem if l.strip() and l not in orig]
            msgs = []
            rc, out = sh(['go', 'build', './...'], W)
            if rc: msgs.append('BUILD FAILS ' + out[-300:])
            rc, out = sh(['go', 'test', '-v', '-vet=off', '-count=1', '-timeout', '2m', './...'], W)
            fails = {l.split()[2] for l in out.split('\n') if l.startswith('--- FAIL')} - BASEFAIL
            if fails or 'panic:' in out or 'fatal error' in out: msgs.append('TESTS FAIL ' + str(fails) + out[-300:])
            t = []
            for i in range(2):
                rc, out = sh([d + '/demo.sh'], W)
                t.append(rc)
                if rc == 0: msgs.append('DEMO PASSES WITH BUG ' + out[-300:])
                elif i == 0: show = out
            subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=W)
            for i in range(2):
                rc, out = sh([d + '/demo.sh'], W)
                if rc: msgs.append('DEMO FAILS WITHOUT BUG ' + out[-600:])
            nrem = len([l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')])
            print(s['id'], s['prop'], 'ok' if not msgs else '; '.join(msgs), f'(removed {nrem}, of them ours {len(own)})', [l for l in show.split('\n') if 'zz_demo' in l or 'panic' in l or 'fatal' in l][:1])
            if msgs: bad = 1
    shutil.rmtree(W, ignore_errors=True)
    return bad
sys.exit(main())
