#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo, on which every check has to stay quiet.
usage: refactors.py OUT.jsonl [names...] [-w WORKERS] [-c C01,C02,...]"""
import json, os, subprocess, sys, argparse, tempfile, shutil
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('names', nargs='*'); ap.add_argument('-w', default='8'); ap.add_argument('-c', default='')
a = ap.parse_args()
V = '/verif'; R = {}
def refactor(name, *edits): R[name] = edits
exec(open(V + '/tools/refactor_data.py').read())
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
checks = a.c.split(',') if a.c else ['C%02d' % i for i in range(1, 21)]
w = tempfile.mkdtemp(prefix='refactor.', dir='/tmp')
try:
    for name, es in R.items():
        if a.names and not any(n in name for n in a.names): continue
        r, W = w + '/repo', w + '/verif'
        shutil.rmtree(r, ignore_errors=True); shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', r]); os.mkdir(W)
        subprocess.check_call('tar c --exclude=./.git --exclude=./evidence --exclude=./out --exclude=./.build --exclude=./seeded . | tar x -C ' + W, shell=True, cwd=V)
        for f, o, n in es:
            p = r + '/' + f
            if o is None: open(p, 'w').write(n); continue
            s = open(p).read(); assert s.count(o) >= 1, (name, f, o)
            open(p, 'w').write(s.replace(o, n))
        env = dict(os.environ, VERIF_REPO=r, VERIF_DIR=W, VERIF_WORKERS=a.w, GOFLAGS='-mod=mod -buildvcs=false', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        p = subprocess.run(['go', 'vet', './memdb', './server', './resp', './config', './logger', './util', '.'], cwd=r, env=env, capture_output=True, text=True)
        p = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '20s', './...'], cwd=r, env=env, capture_output=True, text=True)
        ok = set()
        for l in p.stdout.splitlines():
            try: d = json.loads(l)
            except Exception: continue
            if d.get('Action') == 'pass' and d.get('Test'): ok.add(d['Package'] + '/' + d['Test'])
        if not stable <= ok: print(name, 'TESTS FAIL', p.stderr[-1500:], p.stdout[-800:], sorted(stable - ok)[:4], flush=True); continue
        for m in ['plain', 'race']: subprocess.check_call([W + '/build.sh', m], env=env)
        for q in checks:
            p = subprocess.run([W + '/.build/sim-' + ('race' if q == 'C15' else 'plain'), 'check', q, 'quick'], env=env, cwd=r, capture_output=True, text=True)
            print(name, q, p.returncode, p.stdout[-1500:] if p.returncode else p.stdout.strip()[-120:], flush=True)
            open(a.out, 'a').write(json.dumps(dict(name=name, check=q, rc=p.returncode, out=p.stdout[-3000:])) + '\n')
            if p.returncode and os.path.isdir(W + '/out'): subprocess.run('cp %s/out/* /tmp/ref/' % W, shell=True)
finally: shutil.rmtree(w, ignore_errors=True)
