import sys,threading; sys.path.insert(0,'/verif'); sys.setrecursionlimit(200000)
from sbv.front import Program
from sbv.build import *
from sbv import terms as tm
def main():
    p=Program(); f=p.func(sys.argv[1]); b=Builder(p, opaque=sys.argv[2:])
    if f.cls is not None: b.self_cls=f.cls
    s=b.summarise(f)
    print("ret", tm.show(s.ret,12)[:3000]); print("raises",{k:tm.show(v)[:300] for k,v in s.raises.items()})
    if s.is_gen: print("yields",tm.show(s.yields,14)[:6000])
    for l,v in s.effects.items(): print("EFF",tm.show(l),"=",tm.show(v,6)[:400])
    print(b.notes, b.steps)
threading.stack_size(512*1024*1024); t=threading.Thread(target=main); t.start(); t.join()
