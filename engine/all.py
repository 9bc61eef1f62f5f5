import time,collections,traceback
from facts import *
from ev import *
p=Prog()
slow=[];errs=collections.Counter();n=0
for f in list(p.fns.values()):
    if f['kind'] in('closure','const') or f.get('derived'): continue
    t=time.time()
    try:
        e=Ev(p,maxdepth=6,budget=60000).run(f['id'])
        n+=1
    except Exception as x:
        tb=traceback.extract_tb(x.__traceback__)[-1]
        errs[(type(x).__name__,str(x)[:80],tb.name,tb.lineno)]+=1
        slow.append(('ERR',f['name'],str(x)[:60]))
    d=time.time()-t
    if d>3: slow.append((round(d,1),f['name'],len(e.events)))
print(n); 
for k,v in errs.most_common(): print(v,k)
for s in slow: print(s)
