#!/usr/bin/env python3
# mut.py PROP file 'old' 'new' [more triples]  -> run check of PROP on a mutated copy
import sys,subprocess,shutil,os,tempfile
prop=sys.argv[1]; d=tempfile.mkdtemp(prefix='mut-',dir='/tmp/m')
subprocess.run(['cp','-a','/repo/.',d]);
a=sys.argv[2:]
while a:
    f,o,n=a[:3]; a=a[3:]
    p=os.path.join(d,f); s=open(p).read()
    o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
    assert s.count(o)>=1,(f,o)
    open(p,'w').write(s.replace(o,n,1))
for p in prop.split(','):
    r=subprocess.run([os.environ.get('VERIF_AT','/verif')+'/bin/check',p],env=dict(os.environ,VERIF_REPO=d),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print(p,'rc',r.returncode,r.stdout[:900])
shutil.rmtree(d)
