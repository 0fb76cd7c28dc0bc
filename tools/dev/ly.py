import json,sys
# show the rejected event of a layout replay and the types it is about
d=json.load(open(sys.argv[1])); ev=d['events']; u=d['unexplained_event']
if not isinstance(u,int): u=ev.index(u)
u=max(0,u-1)
e=ev[u]; print(d['job'],u,str(e)[:600])
ty=ev[0]['types']; seen=set()
def show(n,ind=0):
    m=ty[n-1]; print(' '*ind,n,{k:v for k,v in m.items()})
    if n in seen or ind>8: return
    seen.add(n)
    if 'e' in m: show(m['e'],ind+2)
    for h in m.get('f',[]): show(h['t'] if isinstance(h,dict) else h,ind+2)
if 't' in e: show(e['t'])
if 'r' in e:
    for x in ev[:u]:
        if x.get('r')==e['r']: print(str(x)[:500])
for x in ev[max(0,u-3):u]:
    if 'w' in x: print(str(x)[:400]); 
