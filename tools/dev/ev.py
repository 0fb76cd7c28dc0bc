import json,sys
d=json.load(open(sys.argv[1])); n=d.get('index', None)
ev=d['events']; u=d.get('unexplained_event')
print(d['job'], u)
want=sys.argv[2:]
for i,e in enumerate(ev):
    if not want or any(str(e.get(w.split('=')[0]))==w.split('=')[1] for w in want) or e['e'] in('conf','stop','stopped','done','idle','cut'): print(i,{k:(v if len(str(v))<40 else str(v)[:40]) for k,v in e.items()})
    if u is not None and e==u: break
