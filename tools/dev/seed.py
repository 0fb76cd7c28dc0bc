#!/usr/bin/env python3
"""seed.py ID PROP...: confirm a planted bug (/verif/seeded/ID) in a scratch copy of /repo: it builds, passes the tests,
its demo tells it from the unchanged tree, and report whether the checks catch it.  seed.py --no-check ID skips the checks."""
import json, os, subprocess, sys, shutil, tempfile
args = sys.argv[1:]
nocheck = '--no-check' in args
args = [a for a in args if a != '--no-check']
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(env, **kw.pop('e', {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
for id in args:
    d = '/verif/seeded/' + id
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        m, demo = tmp + '/repo', tmp + '/demo'
        shutil.copytree('/repo', m); shutil.copytree(d, demo)
        orig = set()
        a = run(['bash', demo + '/demo.sh'], m, timeout=300)
        ok = a.returncode == 0
        p = run(['git', 'apply', d + '/patch.diff'], m)
        # removed lines must be original
        b = run(['go', 'build', './...'], m)
        t = run(['go', 'test', '-vet=off', '-count=1', './...'], m)
        z = run(['bash', demo + '/demo.sh'], m, timeout=300)
        print(id, meta['property'], 'demo-clean', a.returncode, 'apply', p.returncode, 'build', b.returncode, 'test', t.returncode, 'demo-patched', z.returncode, flush=True)
        if a.returncode: print(a.stdout[-1500:])
        if p.returncode or b.returncode or t.returncode: print(p.stdout, b.stdout[-800:], t.stdout[-800:])
        if z.returncode == 0: print('NOT SHOWN', z.stdout[-800:])
        # lines touched
        hunk = subprocess.run("git diff -U0 HEAD | grep -E '^@@|^---'", cwd=m, shell=True, stdout=subprocess.PIPE, text=True).stdout
        f = None
        for l in hunk.splitlines():
            if l.startswith('---'): f = l[6:]
            else:
                s = l.split()[1][1:]; st, n = (s.split(',') + ['1'])[:2]
                if int(n):
                    bl = run(['git', 'blame', '-s', '-L', '%s,+%s' % (st, n), 'HEAD', '--', f], m).stdout
                    print('   lines', f, [('orig' if x.startswith('^') else 'FIX') for x in bl.splitlines()])
        if not nocheck and not p.returncode:
            for pr in [meta['property']] + meta.get('also', []):
                c = run(['/verif/bin/check', pr, 'quick'], '/verif', e=dict(VERIF_REPO=m, VERIF_SEED='1', VERIF_TIER='quick'))
                print('   check', pr, c.returncode, [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')][:2], flush=True)
    finally:
        shutil.rmtree(tmp)
