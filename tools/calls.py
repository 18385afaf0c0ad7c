"""dev: list calls (demangled) made by functions of a harness matching a regexp. usage: calls.py H.cpp regex [depth]"""
import sys, re; sys.path.insert(0,'/verif'); sys.setrecursionlimit(5000)
from irv import build
m=build.emit_ir('/verif/harness/'+sys.argv[1])
D=int(sys.argv[3]) if len(sys.argv)>3 else 1
seen=set()
def walk(n,d):
    f=m.funcs.get(n)
    if f is None or n in seen: return
    seen.add(n); f.parse()
    for b in f.blocks.values():
        for i in b.instrs:
            if i.op in ('call','invoke'):
                c=i.x['callee']; nm=c.v if c.k=='g' else '?'
                if nm.startswith('@llvm.'): continue
                print('  '*d+m.demangle(nm)[:230])
                if d<D: walk(nm,d+1)
for n in m.funcs:
    if re.search(sys.argv[2], m.dem[n]): print('##', m.dem[n][:200]); walk(n,1)
