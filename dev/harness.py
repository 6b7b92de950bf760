import ast, copy, random, sys, time, collections
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev')
sys.setrecursionlimit(50000)
from sa.project import *
from sa import driver, terms as tm
import refactor, mutate

def variant(tree, fn, newnode, helper=None):
    """Tree with fn's node replaced."""
    t=Tree(tree.label+'+'); t.modules=dict(tree.modules)
    m=fn.mod
    mt=ast.Module(body=[],type_ignores=[])
    for s in m.tree.body:
        if s is fn.node:
            if helper is not None: mt.body.append(helper)
            mt.body.append(newnode)
        elif fn.cls is not None and s is fn.cls.node:
            c=copy.copy(s); c.body=[newnode if x is fn.node else x for x in s.body]
            if helper is not None: mt.body.append(helper)
            mt.body.append(c)
        else: mt.body.append(s)
    ast.fix_missing_locations(mt)
    t.modules[m.name]=Module(m.name,m.path,mt,m.is_pkg)
    return t

def main():
    mode=sys.argv[1]; n=int(sys.argv[2]); seed=int(sys.argv[3]) if len(sys.argv)>3 else 0
    pref=sys.argv[4].split(',') if len(sys.argv)>4 else ['ethereum.']
    only=sys.argv[5].split(',') if len(sys.argv)>5 and sys.argv[5] else None
    rng=random.Random(seed)
    from sa import common
    ref=Tree.from_dir('/repo/src')
    infos=common.ref_infos(ref)
    base=driver.Pairing(ref,ref,infos); base.callers()
    fns=[f for f in ref.functions() if any(f.qual.startswith(p) for p in pref) and len(strip_doc(f.node))>0 and '.<' not in f.qual]
    bad=collections.Counter(); tot=collections.Counter(); ex={}
    T=refactor.ALL if mode=='r' else mutate.ALL
    if only: T={k:v for k,v in T.items() if k in only}
    t0=time.time()
    done=0
    while done<n:
        f=rng.choice(fns); k=rng.choice(sorted(T))
        nd=copy.deepcopy(f.node); before=ast.dump(nd)
        try: r=T[k](nd,rng)
        except Exception as e:
            print('XFAIL',k,f.qual,repr(e)); continue
        if r is None: continue
        h=None
        if isinstance(r,tuple): r,h=r
        if ast.dump(r)==before: continue
        ast.fix_missing_locations(r)
        if h: ast.fix_missing_locations(h)
        act=variant(ref,f,r,h)
        p=driver.Pairing.__new__(driver.Pairing)
        driver.Pairing.__init__(p,ref,act,infos)
        # reuse the call graph, patched
        p._callers=base._callers; p._valued=base._valued
        t1=time.time()
        try: d=p.check([f.qual])
        except Exception as e:
            import traceback; traceback.print_exc(); print('CRASH',k,f.qual,repr(e)[:200]); print(ast.unparse(r)); d={'crash':[]}
        done+=1; tot[k]+=1
        if time.time()-t1>6: print('SLOW',k,f.qual,round(time.time()-t1,1),p.n_compared,flush=True)
        alarm=bool(d)
        if (mode=='r')==alarm:
            bad[k]+=1
            ex.setdefault(k,[]).append((f,r,h,d))
    for k in sorted(tot): print(f'{k:14} {bad[k]}/{tot[k]}')
    print('total',sum(bad.values()),'/',sum(tot.values()),'time',time.time()-t0)
    import difflib
    for k,l in ex.items():
        for f,r,h,d in l[:int(sys.argv[6]) if len(sys.argv)>6 else 2]:
            print('=====',k,f.qual)
            o=copy.deepcopy(f.node); o.body=strip_doc(o); r.body=strip_doc(r)
            for ln in difflib.unified_diff(ast.unparse(o).splitlines(),ast.unparse(r).splitlines(),lineterm='',n=1): print('   ',ln)
            if h: print(ast.unparse(h))
            for q,ds in d.items():
                for x in ds[:3]: print('  >>',q.split('.')[-1],str(x)[:400])
main()
