#!/usr/bin/env python3
"""Measure the checks with small mechanical changes (mutants) of /repo.
usage: mutants.py OUT.jsonl [-n COUNT] [-l LANES] [-f FILE] [-s SEED] [-r RUNS1,RUNS2] [-only IDS.txt] [-p PROPS]
Mutants that do not compile or fail the repository's stable tests are skipped. Each other one goes through the
checks (small run counts first) until one reports it."""
import json, os, random, subprocess, sys, shutil, threading, argparse, tempfile
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('-n', type=int, default=400); ap.add_argument('-l', type=int, default=4)
ap.add_argument('-f', default=''); ap.add_argument('-s', type=int, default=1); ap.add_argument('-r', default='3000,30000')
ap.add_argument('-w', default='2'); ap.add_argument('-p', default=''); ap.add_argument('-only', default='')
a = ap.parse_args()
V = '/verif'
subprocess.check_call(['go', 'build', '-o', '/tmp/mutlist', '.'], cwd=V + '/tools/mutate', env=dict(os.environ, GOFLAGS='-buildvcs=false'))
ms = [json.loads(l) for l in subprocess.check_output(['/tmp/mutlist', '/repo']).splitlines()]
for i, m in enumerate(ms): m['id'] = '%s:%d:%d:%s' % (m['file'], m['from'], m['to'], m['repl'][:40])
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
done = set()
if os.path.exists(a.out):
    for l in open(a.out): done.add(json.loads(l)['id'])
random.Random(a.s).shuffle(ms)
if a.only:
    want = set(open(a.only).read().split('\n')); ms = [m for m in ms if m['id'] in want]
if a.f: ms = [m for m in ms if m['file'].startswith(a.f)]
keep = []
for m in ms:
    if 'len(cmd)' in m['desc'] and random.Random(m['id']).random() > 0.15 and not a.only: continue
    if m['id'] in done: continue
    keep.append(m)
ms = keep[:a.n]
ORD = {'memdb/strings.go': 'C01 C06 C16 C05', 'memdb/list': 'C02 C17 C16', 'memdb/hash': 'C03 C17 C16', 'memdb/set': 'C04 C17 C05 C16', 'memdb/keys.go': 'C06 C05 C07 C13', 'resp': 'C09 C11 C12', 'server': 'C10 C14 C12 C11', 'util': 'C13 C18', 'logger': 'C19', 'config': 'C20', 'main': 'C20 C14', 'memdb/locks': 'C05 C08 C18', 'memdb/memdb': 'C07 C06', 'memdb/conc': 'C13 C18 C05'}
ALL = ['C%02d' % i for i in range(1, 21)]
def order(f, own=False):
    r = []
    for k, v in ORD.items():
        if f.startswith(k): r = v.split()
    if own and r: return r
    return r + [p for p in ALL if p not in r and p != 'C15'] + ['C15']
lock = threading.Lock(); it = iter(ms); cnt = {}
def lane(i):
    w = tempfile.mkdtemp(prefix='mut%d.' % i, dir='/tmp')
    R, W = w + '/repo', w + '/verif'
    subprocess.check_call(['cp', '-a', '/repo', R]); os.mkdir(W)
    subprocess.check_call('tar c --exclude=./.git --exclude=./evidence --exclude=./out --exclude=./.build --exclude=./seeded . | tar x -C ' + W, shell=True, cwd=V)
    env = dict(os.environ, VERIF_REPO=R, VERIF_DIR=W, VERIF_WORKERS=a.w, VERIF_NOMIN='1', GOFLAGS='-mod=mod -buildvcs=false')
    def run(c, t, **k):
        try:
            p = subprocess.run(c, capture_output=True, text=True, timeout=t, env=dict(env, **k), cwd=R); return p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired: return 99, 'timeout'
    while True:
        with lock: m = next(it, None)
        if m is None: break
        p = R + '/' + m['file']; src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['from']] + m['repl'].encode() + src[m['to']:])
        res, by = '', ''
        try:
            if run(['go', 'build', '-o', '/dev/null', '.'], 120)[0]: res = 'nobuild'
            else:
                rc, o = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '20s', './...'], 100)
                ok = set()
                for l in o.splitlines():
                    try: d = json.loads(l)
                    except Exception: continue
                    if d.get('Action') == 'pass' and d.get('Test'): ok.add(d['Package'] + '/' + d['Test'])
                if not stable <= ok: res = 'tests'
            if not res:
                if run([W + '/build.sh', 'plain'], 300)[0]: res = 'simbuild'
                elif run([W + '/build.sh', 'race'], 300)[0]: res = 'simbuild'
            if not res:
                res = 'survived'
                for n in a.r.split(','):
                    for q in (a.p.split(',') if a.p else order(m['file'], n != a.r.split(',')[0])):
                        rc, o = run([W + '/.build/sim-' + ('race' if q == 'C15' else 'plain'), 'check', q, 'quick'], 600, VERIF_RUNS=n if q != 'C15' else str(int(n) // 4))
                        if rc == 1: res, by = 'caught', q + ' ' + n; break
                        if rc != 0: res, by = 'broken', q + ' ' + o[-300:]; break
                    if res != 'survived': break
        finally:
            open(p, 'wb').write(src)
        with lock:
            cnt[res] = cnt.get(res, 0) + 1
            open(a.out, 'a').write(json.dumps(dict(m, res=res, by=by)) + '\n')
            if res in ('survived', 'broken', 'simbuild'): print(res, m['file'], m['line'], m['func'], m['desc'].replace('\n', ' ')[:150], by, flush=True)
    shutil.rmtree(w)
ts = [threading.Thread(target=lane, args=(i,)) for i in range(a.l)]
[t.start() for t in ts]; [t.join() for t in ts]
print(cnt)
