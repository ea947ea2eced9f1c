#!/usr/bin/env python3
"""Tries planted bugs: seeded.py [--checks C01,C03|own|none] [--demo-only] ID...
Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demo and the
named checks (default: the bug's own property), and takes the patch back again."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def restore():
    sh('git -C /repo checkout -- .')
def main():
    a = sys.argv[1:]
    checks = 'own'; tests = True
    if '--checks' in a:
        i = a.index('--checks'); checks = a[i + 1]; del a[i:i + 2]
    if '--no-tests' in a:
        a.remove('--no-tests'); tests = False
    a = [x for x in a if x != '-v']
    ids = a or sorted(os.listdir(V + '/seeded'))
    assert not sh('git -C /repo status --porcelain').stdout, '/repo not clean'
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in ids:
        d = f'{V}/seeded/{b}'
        prop = json.load(open(d + '/meta.json'))['property']
        out = {'id': b}
        try:
            out['demo_clean'] = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300).returncode
            r = sh(f'git -C /repo apply {d}/patch.diff')
            if r.returncode: print(b, 'patch fails', r.stdout); continue
            if tests:
                r = sh('bash /opt/vp/build.sh')
                if r.returncode: print(b, 'BUILD FAILS', r.stdout[-1500:]); continue
                sh('bash /opt/vp/test.sh /tmp/seeded-t.json')
                t = json.load(open('/tmp/seeded-t.json'))
                failed = [x for x in base if x not in set(t.get('passed', []))]
                out['tests'] = 'ok' if not failed else failed[:5]
            t0 = time.time()
            r = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
            out['demo'] = r.returncode
            out['demo_s'] = round(time.time() - t0)
            if '-v' in sys.argv: print(r.stdout[-800:])
            cs = [] if checks == 'none' else [prop] if checks == 'own' else checks.split(',')
            for c in cs:
                t0 = time.time()
                r = sh(f'bash {V}/run.sh {c} quick', cwd=V, env={**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
                line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                out[c] = f'rc={r.returncode} {time.time()-t0:.0f}s {line[:1]}'
                if line:
                    p = line[0].split('replay=')[1].split()[0]
                    rr = sh(f'bash {V}/run.sh replay {p}', cwd=V)
                    out[c + '-replay'] = rr.returncode
                elif r.returncode: print(r.stdout[-1500:])
        finally:
            restore()
        print(json.dumps(out), flush=True)
main()
