#!/usr/bin/env python3
"""Trial bugs without a demonstration: a quick measurement of the checks while they grow.
usage: trials.py OUT.jsonl [-l LANES] [-w WORKERS] [names...]   (trials are in tools/trials_data.py)
Each trial is applied to a scratch copy of /repo, must build and pass the stable tests, then goes through its
property's quick check (then through the others, unless -own)."""
import json, os, subprocess, sys, shutil, threading, argparse, tempfile
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('names', nargs='*'); ap.add_argument('-l', type=int, default=2); ap.add_argument('-w', default='4'); ap.add_argument('-own', action='store_true')
a = ap.parse_args()
V = '/verif'; T = []
def trial(name, prop, *edits): T.append((name, prop, edits))
exec(open(V + '/tools/trials_data.py').read())
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
if a.names: T = [t for t in T if any(n in t[0] for n in a.names)]
lock = threading.Lock(); it = iter(T)
for n, p, es in T:
    for f, o, w, *k in es:
        s = open('/repo/' + f).read(); c = s.count(o); assert c == 1 or (k and c > k[0]), (n, f, c, o)
def lane(i):
    w = tempfile.mkdtemp(prefix='trial%d.' % i, dir='/tmp')
    R, W = w + '/repo', w + '/verif'
    subprocess.check_call(['cp', '-a', '/repo', R]); os.mkdir(W)
    subprocess.check_call('tar c --exclude=./.git --exclude=./evidence --exclude=./out --exclude=./.build --exclude=./seeded . | tar x -C ' + W, shell=True, cwd=V)
    env = dict(os.environ, VERIF_REPO=R, VERIF_DIR=W, VERIF_WORKERS=a.w, VERIF_NOMIN='1', GOFLAGS='-mod=mod -buildvcs=false', VERIF_SEED=os.environ.get('VERIF_SEED','1'), VERIF_TIER='quick')
    def run(c, t, **k):
        try:
            p = subprocess.run(c, capture_output=True, text=True, timeout=t, env=dict(env, **k), cwd=R); return p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired: return 99, 'timeout'
    while True:
        with lock: t = next(it, None)
        if t is None: break
        name, prop, es = t; by = []
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=R)
        for f, o, n, *k in es:
            s = open(R + '/' + f).read()
            if k:
                ps = s.split(o); s = o.join(ps[:k[0]+1]) + n + o.join(ps[k[0]+1:])
            else: s = s.replace(o, n)
            open(R + '/' + f, 'w').write(s)
        rc, o = run(['go', 'build', '-o', '/dev/null', '.'], 120)
        res = ''
        if rc: res = 'nobuild ' + o[-400:]
        else:
            rc, o = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '20s', './...'], 100)
            ok = set()
            for l in o.splitlines():
                try: d = json.loads(l)
                except Exception: continue
                if d.get('Action') == 'pass' and d.get('Test'): ok.add(d['Package'] + '/' + d['Test'])
            if not stable <= ok: res = 'tests ' + str(sorted(stable - ok))[:200]
        if not res:
            rc, o = run([W + '/build.sh', 'plain'], 300); rc2 = run([W + '/build.sh', 'race'], 300)[0]
            if rc or rc2: res = 'simbuild ' + o[-300:]
        if not res:
            res = 'MISSED'
            for q in [prop] + ([] if a.own else ['C%02d' % i for i in range(1, 21) if 'C%02d' % i != prop]):
                rc, o = run([W + '/.build/sim-' + ('race' if q == 'C15' else 'plain'), 'check', q, 'quick'], 900)
                if rc == 1:
                    by = [q, [l for l in o.splitlines() if 'VIOLATION' in l or 'run ' in l][:3]]
                    res = 'caught' if q == prop else 'caught-other'; break
                if rc: by = [q, o[-300:]]; res = 'broken'; break
        with lock:
            open(a.out, 'a').write(json.dumps(dict(name=name, prop=prop, res=res, by=by)) + '\n')
            print(res, name, prop, by[:1], str(by[1:])[:220] if res != 'caught' else '', flush=True)
    shutil.rmtree(w)
ts = [threading.Thread(target=lane, args=(i,)) for i in range(a.l)]
[t.start() for t in ts]; [t.join() for t in ts]
