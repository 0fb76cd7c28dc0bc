#!/usr/bin/env python3
"""batch.py FILE [NAME…]: FILE defines muts=[(name, 'P1,P2', [(file,old,new)…])]; runs the checks on each mutated copy of /repo
until one reports a violation, prints what happened; mutants that do not build or fail the tests are reported as such."""
import json, os, subprocess, sys, shutil, tempfile, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
genv = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
for name, props, edits in ns['muts']:
    if only and name not in only:
        continue
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp/m')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d])
        bad = None
        for f, o, n in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(o) != 1:
                bad = 'edit of %s matches %d times' % (f, s.count(o))
                break
            open(p, 'w').write(s.replace(o, n))
        if not bad:
            for cmd in (['go', 'build', './...'], ['go', 'test', '-vet=off', '-count=1', './...']):
                r = subprocess.run(cmd, cwd=d, env=genv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    bad = ' '.join(cmd[:2]) + ': ' + r.stdout[-300:]
                    break
        if bad:
            print(name, 'BAD', bad, flush=True)
            continue
        res = []
        for p in props.split(','):
            t = time.time()
            r = subprocess.run([os.environ.get('VERIF_AT','/verif')+'/bin/check', p], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('%s=%d(%ds)' % (p, r.returncode, time.time() - t))
            if r.returncode == 1 and v:
                j = json.load(open(v[0].split('replay=')[1]))
                res.append('%s ev %s' % (str(j.get('job'))[:80] , j.get('unexplained_event')))
                break
            if r.returncode == 2:
                res.append(r.stdout[-300:])
        print(name, 'CAUGHT' if any('=1(' in x for x in res) else 'MISSED', *res, flush=True)
    finally:
        shutil.rmtree(d)
