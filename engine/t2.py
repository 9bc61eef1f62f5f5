import sys
from facts import *
from ev import *
from view import View
p=Prog(full=True) if '-full' in sys.argv else Prog()
a=[x for x in sys.argv[1:] if not x.startswith('-')]
W=int(([x[2:] for x in sys.argv if x.startswith('-w')] or ['1200'])[0])
D=int(([x[2:] for x in sys.argv if x.startswith('-d')] or ['14'])[0])
import io, contextlib
def subterms(ts):
    cnt={}
    def go(t):
        if not isinstance(t,T): return
        cnt[t]=cnt.get(t,0)+1
        if cnt[t]>1: return
        for x in kids(t): go(x)
    def kids(t):
        out=[]
        def g(x):
            if isinstance(x,T): out.append(x)
            elif isinstance(x,(tuple,frozenset)):
                for y in x: g(y)
        for x in t.a: g(x)
        return out
    for t in ts: go(t)
    return cnt
def compact(lines, terms):
    cnt=subterms(terms)
    c=[]
    for t,n in cnt.items():
        if n<2 or t.op in ("c","arg","loop","pos"): continue
        tx=show(t,60)
        if len(tx)>40: c.append((len(tx),tx))
    c=sorted(set(c))[:400]
    defs=[]
    for _,tx in c:
        for i,d in enumerate(defs): tx=tx.replace(d,"$%d"%i)
        if len(tx)<12 : continue
        defs.append(tx)
    for i,d in enumerate(defs):
        lines=[l.replace(d,"$%d"%i) for l in lines]
    used=[i for i,d in enumerate(defs) if any("$%d"%i in l for l in lines+defs)]
    for i in used: print("  $%d = %s"%(i,defs[i][:W]))
    for l in lines: print(l[:W])
for f in sorted(p.find(a[0]),key=lambda f:(f['file'],f['line'])):
    if f.get('derived'): continue
    if len(a)>1 and a[1] not in f['file']: continue
    print("=====",f['nname'])
    e=Ev(p).run(f['id']); e.f=f
    if '-r' not in sys.argv: e=View(e)
    if isinstance(e,View): e.returns()
    if '-k' in sys.argv:
        ts=[];ls=[]
        for c,v in e.returns():
            ls.append("  RET %s => %s"%(showc(c,60),show(v,60))); ts+=[p for k in c for p,_ in k]+[v]
        for x in e.events:
            if x.kind in('write','panic') or x.kind=='assert' and '-a' in sys.argv or x.kind in ('call','enter') and '-e' in sys.argv:
                ls.append("    %s %s (%s) if %s %s"%(x.kind,x.path,", ".join(show(y,60) for y in x.args),showc(x.cond,60),x.line)); ts+=list(x.args)+[p for k in x.cond for p,_ in k]
        compact(ls,ts); continue
    for c,v in e.returns(): print("  RET", showc(c,D)[:W], "=>", show(v,D)[:W])
    for x in e.events:
        if x.kind in('write','panic') or x.kind=='assert' and '-a' in sys.argv or x.kind in ('call','enter') and '-e' in sys.argv:
            print("   ",x.kind,x.path,"(",", ".join(show(y,D) for y in x.args)[:W],")","if",showc(x.cond,6)[:W//2],x.line)
    if '-l' in sys.argv:
        for t,l in e.loops.items(): print("   LOOP",show(t),'init',show(l['init'],6)[:W//3],'back',[show(b,8)[:W//3] for b in l['back']])
