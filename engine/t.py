import sys
from facts import *
from ev import *
p=Prog()
for f in p.find(sys.argv[1]):
    print("=====",f['nname'], f.get('trait_ref'))
    e=Ev(p).run(f['id'])
    for c,v in e.returns(): print("  RET", showc(c), "=>", show(v,9))
    for ev_ in e.events: print("   ",ev_)
    for t,l in e.loops.items(): print("   LOOP",show(t),'init',show(l['init'],4),'back',[show(b,6) for b in l['back']])
    print(len(e.events))
