#!/usr/bin/env python3
"""mkseed.py FILE: FILE is python defining seeds=[dict(id,prop,needs,breaks,pkg,edits=[(file,old,new)],demo=go test source)]."""
import json, os, subprocess, sys, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# fails if the tree has the bug: runs demo_test.go inside the package through an overlay
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
over=$(mktemp /tmp/demo-XXXXXX.json)
trap 'rm -f "$over"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$over"
timeout -k 5 200 go test -overlay "$over" -vet=off -count=1 -timeout 150s -run 'TestDemo' ./%s
'''
for s in ns['seeds']:
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkseed-')
    try:
        m = tmp + '/repo'
        shutil.copytree('/repo', m)
        for f, o, n in s['edits']:
            t = open(m + '/' + f).read()
            assert t.count(o) == 1, (s['id'], f, o, t.count(o))
            open(m + '/' + f, 'w').write(t.replace(o, n))
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=m, stdout=subprocess.PIPE, text=True).stdout)
    finally:
        shutil.rmtree(tmp)
    open(d + '/demo.sh', 'w').write(DEMO % (s['pkg'], s['pkg']))
    open(d + '/demo_test.go.txt', 'w').write(s['demo'])
    meta = dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks'])
    json.dump(meta, open(d + '/meta.json', 'w'), indent=1)
