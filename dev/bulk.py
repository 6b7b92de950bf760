"""dev/bulk.py OUT SEED [P [ONLY]]: a copy of /repo/src with one random
behaviour-preserving refactoring in (a share P of) all functions."""
import ast, copy, os, random, shutil, sys
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev')
sys.setrecursionlimit(50000)
from sa.project import *
import refactor
def main():
    out, seed = sys.argv[1], int(sys.argv[2]); p=float(sys.argv[3]) if len(sys.argv)>3 else 1.0
    only=sys.argv[4].split(',') if len(sys.argv)>4 else None
    rng=random.Random(seed)
    T={k:v for k,v in refactor.ALL.items() if not only or k in only}
    t=Tree.from_dir('/repo/src'); os.makedirs(out,exist_ok=True)
    shutil.copytree('/repo/src',out+'/src',ignore=shutil.ignore_patterns('__pycache__'))
    n=0
    for m in t.modules.values():
        repl={}; helpers={}
        for nm in m.order:
            d=m.defs[nm]
            fs=[d] if isinstance(d,Func) else list(d.methods.values()) if isinstance(d,Class) else []
            for f in fs:
                if not strip_doc(f.node) or rng.random()>p: continue
                for _ in range(12):
                    k=rng.choice(sorted(T)); nd=copy.deepcopy(f.node)
                    try: r=T[k](nd,rng)
                    except Exception: continue
                    if r is None: continue
                    h=None
                    if isinstance(r,tuple): r,h=r
                    if ast.dump(r)==ast.dump(f.node): continue
                    if h is not None:
                        n+=1; old=h.name if isinstance(h,ast.FunctionDef) else h.targets[0].id; new=f'_helper_{n}'
                        if isinstance(h,ast.FunctionDef): h.name=new
                        else: h.targets[0].id=new
                        for x in ast.walk(r):
                            if isinstance(x,ast.Name) and x.id==old: x.id=new
                        helpers.setdefault(id(f.cls.node if f.cls else f.node),[]).append(h)
                    repl[id(f.node)]=r; break
        if not repl: continue
        def sub(body,top):
            o=[]
            for s in body:
                if top: o+=helpers.get(id(s),[])
                if id(s) in repl: o.append(repl[id(s)])
                elif isinstance(s,ast.ClassDef):
                    c=copy.copy(s); c.body=sub(s.body,False); o.append(c)
                else: o.append(s)
            return o
        mt=ast.Module(body=sub(m.tree.body,True),type_ignores=[]); ast.fix_missing_locations(mt)
        # imports from __future__ / helpers order is fine: definitions only
        open(m.path.replace('/repo/src',out+'/src'),'w').write(ast.unparse(mt)+'\n')
        n+=len(repl)
    print(out,'changes',n)
main()
