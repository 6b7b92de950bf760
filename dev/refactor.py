"""Development harness: behaviour-preserving rewrites of single functions.
Measures the false-alarm rate of the comparison engine."""
import ast, copy, random, sys, builtins
sys.path.insert(0, '/verif')
sys.setrecursionlimit(50000)

def names_used(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
def stored(node):
    out=set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx,(ast.Store,ast.Del)): out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
    return out
def hascall(node): return any(isinstance(x,(ast.Call,ast.Yield,ast.NamedExpr,ast.Await)) for x in ast.walk(node))
def L(x): return ast.Name(id=x,ctx=ast.Load())
def S(x): return ast.Name(id=x,ctx=ast.Store())
def blocks(fn):
    for x in ast.walk(fn):
        for f in ('body','orelse','finalbody'):
            b=getattr(x,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt): yield x,f,b
class Ren(ast.NodeTransformer):
    def __init__(s,m): s.m=m
    def visit_Name(s,n):
        if n.id in s.m: n.id=s.m[n.id]
        return n
    def visit_ExceptHandler(s,n):
        s.generic_visit(n)
        if n.name in s.m: n.name=s.m[n.name]
        return n
def has_nested(fn): return any(isinstance(x,(ast.FunctionDef,ast.Lambda,ast.ClassDef)) for x in ast.walk(fn) if x is not fn)

def r_rename(fn,rng):
    if has_nested(fn): return None
    loc=stored(fn)-{a.arg for a in fn.args.args}
    if not loc: return None
    Ren({n:'zz_'+n for n in loc}).visit(fn); return fn
def r_invert(fn,rng):
    c=[x for x in ast.walk(fn) if isinstance(x,ast.If) and x.orelse]
    if not c: return None
    x=rng.choice(c); x.test=ast.UnaryOp(op=ast.Not(),operand=x.test); x.body,x.orelse=x.orelse,x.body; return fn
def r_else(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b[:-1]):
            if isinstance(s,ast.If) and not s.orelse and isinstance(s.body[-1],(ast.Return,ast.Raise,ast.Continue)): c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); b[i].orelse=b[i+1:]; del b[i+1:]; return fn
NEG={ast.Lt:ast.GtE,ast.GtE:ast.Lt,ast.Gt:ast.LtE,ast.LtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.In:ast.NotIn,ast.NotIn:ast.In,ast.Is:ast.IsNot,ast.IsNot:ast.Is}
FLIP={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
def r_flip(fn,rng):
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Compare) and len(x.ops)==1 and type(x.ops[0]) in FLIP and not(hascall(x.left) and hascall(x.comparators[0]))]
    if not c: return None
    x=rng.choice(c); x.ops=[FLIP[type(x.ops[0])]()]; x.left,x.comparators[0]=x.comparators[0],x.left; return fn
class NegT(ast.NodeTransformer):
    def __init__(s,t): s.t=t
    def visit_Compare(s,n):
        s.generic_visit(n)
        if n is s.t: return ast.UnaryOp(op=ast.Not(),operand=ast.Compare(left=n.left,ops=[NEG[type(n.ops[0])]()],comparators=n.comparators))
        return n
def r_negcmp(fn,rng):
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Compare) and len(x.ops)==1]
    if not c: return None
    return NegT(rng.choice(c)).visit(fn)
class DM(ast.NodeTransformer):
    def __init__(s,t): s.t=t
    def visit_BoolOp(s,n):
        s.generic_visit(n)
        if n is s.t:
            return ast.UnaryOp(op=ast.Not(),operand=ast.BoolOp(op=ast.Or() if isinstance(n.op,ast.And) else ast.And(),values=[ast.UnaryOp(op=ast.Not(),operand=v) for v in n.values]))
        return n
def cond_boolops(fn):
    out=[]
    for x in ast.walk(fn):
        if isinstance(x,(ast.If,ast.While,ast.IfExp)):
            for y in ast.walk(x.test):
                if isinstance(y,ast.BoolOp): out.append(y)
    return out
def r_demorgan(fn,rng):
    c=cond_boolops(fn)
    if not c: return None
    return DM(rng.choice(c)).visit(fn)
class Rep(ast.NodeTransformer):
    def __init__(s,t,new): s.t=t; s.new=new
    def visit(s,n):
        if n is s.t: return s.new
        return s.generic_visit(n)
def r_temp(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,(ast.Assign,ast.Return,ast.Expr,ast.AugAssign)) and s.value is not None:
                for x in ast.walk(s.value):
                    if isinstance(x,(ast.BinOp,ast.Compare,ast.Attribute)) and not hascall(x) and isinstance(getattr(x,'ctx',ast.Load()),ast.Load):
                        # no lambda/comprehension vars
                        if not any(isinstance(y,(ast.Lambda,ast.comprehension,ast.IfExp,ast.BoolOp)) for y in ast.walk(s.value)):
                            # skip if a mutating call occurs before in the same expr: only when no calls other than enclosing
                            c.append((b,i,s,x))
    if not c: return None
    b,i,s,x=rng.choice(c)
    calls=[y for y in ast.walk(s.value) if isinstance(y,ast.Call)]
    # evaluate-before safe only if every call encloses x
    if any(not any(z is x for z in ast.walk(y)) for y in calls): return None
    if isinstance(x,ast.Attribute) and any(isinstance(y,ast.Call) and y.func is x for y in calls): return None
    if isinstance(x,ast.Attribute) and isinstance(x.value,ast.Name) and x.value.id not in stored(fn)|{a.arg for a in fn.args.args}: return None
    Rep(x,L('tmp_q')).visit(s)
    b.insert(i,ast.Assign(targets=[S('tmp_q')],value=x)); return fn
def r_inlinetemp(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i in range(len(b)-1):
            s,t=b[i],b[i+1]
            if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name):
                n=s.targets[0].id
                uses=[x for x in ast.walk(fn) if isinstance(x,ast.Name) and x.id==n]
                if len(uses)==2 and any(x is uses[1] or x is uses[0] for x in ast.walk(t) if isinstance(getattr(x,'ctx',None),ast.Load)) and isinstance(t,(ast.Assign,ast.Expr,ast.Return)) and not hascall(s.value): 
                    if t.value is None or any(isinstance(y,(ast.Lambda,ast.comprehension)) for y in ast.walk(t)): continue
                    if any(isinstance(y,ast.Call) for y in ast.walk(t.value)): 
                        # inner calls could be evaluated before; only allow if single call
                        if sum(isinstance(y,ast.Call) for y in ast.walk(t.value))>1: continue
                    u=[x for x in ast.walk(t) if isinstance(x,ast.Name) and x.id==n]
                    if u: c.append((b,i,s,t,u[0]))
    if not c: return None
    b,i,s,t,u=rng.choice(c); Rep(u,s.value).visit(t); del b[i]; return fn
def r_aug(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.AugAssign) and not hascall(s.target): c.append((b,i,s))
    if not c: return None
    b,i,s=rng.choice(c)
    t=copy.deepcopy(s.target)
    for x in ast.walk(t):
        if hasattr(x,'ctx') and x is t: x.ctx=ast.Load()
    b[i]=ast.Assign(targets=[s.target],value=ast.BinOp(left=t,op=s.op,right=s.value)); return fn
def r_forrange(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.For) and isinstance(s.iter,(ast.Name,ast.Attribute)) : c.append((b,i,s))
    if not c: return None
    b,i,s=rng.choice(c)
    s.body.insert(0,ast.Assign(targets=[s.target],value=ast.Subscript(value=copy.deepcopy(s.iter),slice=L('ii_q'),ctx=ast.Load())))
    s.target=S('ii_q'); s.iter=ast.Call(func=L('range'),args=[ast.Call(func=L('len'),args=[s.iter],keywords=[])],keywords=[]); return fn
def r_forwhile(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.For) and not s.orelse and isinstance(s.iter,(ast.Name,ast.Attribute)) and not any(isinstance(x,(ast.Continue,)) for x in ast.walk(s)): c.append((b,i,s))
    if not c: return None
    b,i,s=rng.choice(c)
    body=[ast.Assign(targets=[s.target],value=ast.Subscript(value=copy.deepcopy(s.iter),slice=L('ii_q'),ctx=ast.Load()))]+s.body+[ast.AugAssign(target=S('ii_q'),op=ast.Add(),value=ast.Constant(value=1))]
    b[i:i+1]=[ast.Assign(targets=[S('ii_q')],value=ast.Constant(value=0)),ast.While(test=ast.Compare(left=L('ii_q'),ops=[ast.Lt()],comparators=[ast.Call(func=L('len'),args=[s.iter],keywords=[])]),body=body,orelse=[])]
    return fn
def r_enum(fn,rng):
    c=[s for s in ast.walk(fn) if isinstance(s,ast.For)]
    if not c: return None
    s=rng.choice(c)
    s.iter=ast.Call(func=L('enumerate'),args=[s.iter],keywords=[]); s.target=ast.Tuple(elts=[S('ii_q'),s.target],ctx=ast.Store()); return fn
def r_comp(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.Assign) and isinstance(s.value,ast.ListComp) and len(s.value.generators)==1 and isinstance(s.targets[0],ast.Name): c.append((b,i,s,s.value,s.targets[0].id))
            elif isinstance(s,(ast.Assign,ast.Return,ast.AugAssign,ast.Expr)) and s.value is not None:
                for x in ast.walk(s.value):
                    if isinstance(x,ast.Call) and len(x.args)==1 and isinstance(x.args[0],(ast.GeneratorExp,ast.ListComp)) and len(x.args[0].generators)==1 and x.func is not None and isinstance(x.func,ast.Name) and x.func.id in('sum','any','all','tuple','list','max','min'):
                        c.append((b,i,s,x.args[0],None))
    if not c: return None
    b,i,s,g,n=rng.choice(c)
    nm=n or 'acc_q'
    ge=g.generators[0]
    app=ast.Expr(ast.Call(func=ast.Attribute(value=L(nm),attr='append',ctx=ast.Load()),args=[g.elt],keywords=[]))
    body=[app]
    for cnd in reversed(ge.ifs): body=[ast.If(test=cnd,body=body,orelse=[])]
    loop=[ast.Assign(targets=[S(nm)],value=ast.List(elts=[],ctx=ast.Load())),ast.For(target=ge.target,iter=ge.iter,body=body,orelse=[])]
    if n: b[i:i+1]=loop
    else:
        Rep(g,L(nm)).visit(s); b[i:i]=loop
    return fn
def r_splitor(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.If) and not s.orelse and isinstance(s.test,ast.BoolOp) and isinstance(s.test.op,ast.Or) and isinstance(s.body[-1],(ast.Raise,ast.Return)): c.append((b,i,s))
    if not c: return None
    b,i,s=rng.choice(c)
    b[i:i+1]=[ast.If(test=v,body=copy.deepcopy(s.body),orelse=[]) for v in s.test.values]; return fn
def r_nestand(fn,rng):
    c=[s for s in ast.walk(fn) if isinstance(s,ast.If) and not s.orelse and isinstance(s.test,ast.BoolOp) and isinstance(s.test.op,ast.And)]
    if not c: return None
    s=rng.choice(c); v=s.test.values
    s.body=[ast.If(test=v[-1] if len(v)==2 else ast.BoolOp(op=ast.And(),values=v[1:]),body=s.body,orelse=[])]; s.test=v[0]; return fn
def pure(e):
    return not hascall(e)
def r_swap(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i in range(len(b)-1):
            s,t=b[i],b[i+1]
            if isinstance(s,ast.Assign) and isinstance(t,ast.Assign) and all(isinstance(x.targets[0],ast.Name) for x in(s,t)):
                if (pure(s.value) or pure(t.value)):
                    # pure one must not read mutable state when the other has calls
                    if not (pure(s.value) and pure(t.value)):
                        p=s if pure(s.value) else t
                        if any(isinstance(x,(ast.Attribute,ast.Subscript,ast.Compare)) for x in ast.walk(p.value)): continue
                    if s.targets[0].id in names_used(t) or t.targets[0].id in names_used(s): continue
                    c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); b[i],b[i+1]=b[i+1],b[i]; return fn
def r_ifexp(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.If) and len(s.body)==1 and len(s.orelse)==1 and isinstance(s.body[0],ast.Assign) and isinstance(s.orelse[0],ast.Assign) and ast.dump(s.body[0].targets[0])==ast.dump(s.orelse[0].targets[0]): c.append((b,i,s))
    if not c: return None
    b,i,s=rng.choice(c)
    b[i]=ast.Assign(targets=s.body[0].targets,value=ast.IfExp(test=s.test,body=s.body[0].value,orelse=s.orelse[0].value)); return fn
def r_unifexp(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.IfExp): c.append((b,i,s))
            if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.Call) and isinstance(s.value.func,ast.Name) and s.value.func.id in('min','max') and len(s.value.args)==2 and not hascall(s.value.args[0]) and not hascall(s.value.args[1]): c.append((b,i,s))
    if not c: return None
    b,i,s=rng.choice(c); v=s.value
    if isinstance(v,ast.Call):
        op=ast.LtE() if v.func.id=='min' else ast.GtE()
        v=ast.IfExp(test=ast.Compare(left=copy.deepcopy(v.args[0]),ops=[op],comparators=[copy.deepcopy(v.args[1])]),body=v.args[0],orelse=v.args[1])
    if isinstance(s,ast.Return): b[i]=ast.If(test=v.test,body=[ast.Return(value=v.body)],orelse=[ast.Return(value=v.orelse)])
    else: b[i]=ast.If(test=v.test,body=[ast.Assign(targets=s.targets,value=v.body)],orelse=[ast.Assign(targets=copy.deepcopy(s.targets),value=v.orelse)])
    return fn
def r_noop(fn,rng):
    cs=list(blocks(fn)); o,f,b=rng.choice(cs)
    k=rng.choice([ast.Pass(),ast.Assign(targets=[S('_unused_q')],value=ast.Constant(value=None)),ast.Expr(ast.Constant(value=0)),ast.If(test=ast.Constant(value=False),body=[ast.Pass()],orelse=[]),ast.Assert(test=ast.Constant(value=True)),ast.For(target=S('_q'),iter=ast.Tuple(elts=[],ctx=ast.Load()),body=[ast.Pass()],orelse=[]),ast.Expr(ast.Call(func=L('len'),args=[ast.Constant(value='')],keywords=[]))])
    b.insert(rng.randrange(1 if o is fn else 0,len(b)+1) if len(b) else 0,k); return fn
def r_alias(fn,rng):
    at={}
    st=stored(fn)
    ps={a.arg for a in fn.args.args}-st
    for x in ast.walk(fn):
        if isinstance(x,ast.Attribute) and isinstance(x.value,ast.Name) and x.value.id in ps and x.attr in('message','block_env','tx_env','state','header','stack') and isinstance(x.ctx,ast.Load):
            at.setdefault((x.value.id,x.attr),[]).append(x)
    if not at: return None
    if has_nested(fn): return None
    k=rng.choice(sorted(at))
    for x in at[k]: Rep(x,L('al_q')).visit(fn)
    i=1 if fn.body and isinstance(fn.body[0],ast.Expr) and isinstance(fn.body[0].value,ast.Constant) else 0
    fn.body.insert(i,ast.Assign(targets=[S('al_q')],value=ast.Attribute(value=L(k[0]),attr=k[1],ctx=ast.Load()))); return fn
def r_retvar(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.Return) and s.value is not None: c.append((b,i,s))
    if not c: return None
    b,i,s=rng.choice(c)
    b[i:i+1]=[ast.Assign(targets=[S('res_q')],value=s.value),ast.Return(value=L('res_q'))]; return fn
def r_while(fn,rng):
    c=[s for s in ast.walk(fn) if isinstance(s,ast.While) and not s.orelse and not isinstance(s.test,ast.Constant)]
    if not c: return None
    s=rng.choice(c)
    s.body.insert(0,ast.If(test=ast.UnaryOp(op=ast.Not(),operand=s.test),body=[ast.Break()],orelse=[])); s.test=ast.Constant(value=True); return fn
def r_kwrev(fn,rng):
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Call) and len(x.keywords)>1 and sum(hascall(k.value) for k in x.keywords)<=1]
    if not c: return None
    x=rng.choice(c); x.keywords=x.keywords[::-1]; return fn
def r_extract(fn,rng,new=None):
    if any(isinstance(x,(ast.Global,ast.Nonlocal)) for x in ast.walk(fn)): return None
    """extract a run of statements of the body into a helper"""
    if has_nested(fn): return None
    c=[]
    for o,f,b in blocks(fn):
        for i in range(len(b)):
            for j in range(i+1,min(i+6,len(b))+1):
                seg=b[i:j]
                if any(isinstance(x,(ast.Return,ast.Break,ast.Continue,ast.Yield,ast.Global,ast.Try,ast.Raise,ast.ImportFrom)) and not isinstance(x,ast.Raise) for s in seg for x in ast.walk(s)): continue
                if all(isinstance(s,(ast.Pass,)) for s in seg): continue
                if any(isinstance(s,ast.Expr) and isinstance(s.value,ast.Constant) for s in seg): continue
                c.append((b,i,j))
    if not c: return None
    b,i,j=rng.choice(c); seg=b[i:j]
    imported={a.asname or a.name for x in ast.walk(fn) if isinstance(x,ast.ImportFrom) for a in x.names}
    if imported & set().union(*[names_used(s) for s in seg]): return None
    allst=stored(fn)|{a.arg for a in fn.args.args+fn.args.kwonlyargs}
    used=set().union(*[names_used(s) for s in seg])
    st=set().union(*[stored(s) for s in seg])
    # params: names used & local, outs: stored & used elsewhere
    rest=set()
    segids={id(x) for s in seg for x in ast.walk(s)}
    for x in ast.walk(fn):
        if isinstance(x,ast.Name) and id(x) not in segids: rest.add(x.id)
    outs=sorted(st&rest)
    # may be conditionally assigned: require definitely assigned outs at top-level of seg
    top=set()
    for s in seg:
        if isinstance(s,(ast.Assign,ast.AnnAssign,ast.AugAssign)):
            for t in (s.targets if isinstance(s,ast.Assign) else [s.target]):
                top|=stored(t)
    ins=[]
    for n in sorted(used&allst):
        if n in st:
            # read before written?
            first=None
            for s in seg:
                for x in ast.walk(s):
                    pass
            # conservatively pass it in if defined before
            before=False
            for x in ast.walk(fn):
                if isinstance(x,ast.Name) and x.id==n and isinstance(x.ctx,ast.Store) and id(x) not in segids and x.lineno<seg[0].lineno: before=True
            if n in {a.arg for a in fn.args.args}: before=True
            if before: ins.append(n)
            elif n not in top: 
                if n in outs: return None
        else: ins.append(n)
    for n in outs:
        if n not in top and n not in ins: return None
    h=ast.FunctionDef(name='_helper_q',args=ast.arguments(posonlyargs=[],args=[ast.arg(arg=n) for n in ins],kwonlyargs=[],kw_defaults=[],defaults=[]),body=list(seg)+([ast.Return(value=L(outs[0]) if len(outs)==1 else ast.Tuple(elts=[L(o) for o in outs],ctx=ast.Load()))] if outs else []),decorator_list=[],type_params=[])
    call=ast.Call(func=L('_helper_q'),args=[L(n) for n in ins],keywords=[])
    if not outs: stt=ast.Expr(call)
    elif len(outs)==1: stt=ast.Assign(targets=[S(outs[0])],value=call)
    else: stt=ast.Assign(targets=[ast.Tuple(elts=[S(o) for o in outs],ctx=ast.Store())],value=call)
    b[i:j]=[stt]
    return fn,h

def _imported(fn): return {a.asname or a.name for x in ast.walk(fn) if isinstance(x,(ast.ImportFrom,ast.Import)) for a in x.names}
def _mkfn(name,ins,body): return ast.FunctionDef(name=name,args=ast.arguments(posonlyargs=[],args=[ast.arg(arg=n) for n in ins],kwonlyargs=[],kw_defaults=[],defaults=[]),body=body,decorator_list=[],type_params=[])
def _locals(fn): return stored(fn)|{a.arg for a in fn.args.posonlyargs+fn.args.args+fn.args.kwonlyargs}|({fn.args.vararg.arg} if fn.args.vararg else set())|({fn.args.kwarg.arg} if fn.args.kwarg else set())
def _comp_vars(e):
    return {y.id for x in ast.walk(e) if isinstance(x,ast.comprehension) for y in ast.walk(x.target) if isinstance(y,ast.Name)}
def _exprs(fn):
    """expression slots evaluated in statement position (parent,field,idx)"""
    out=[]
    def rec(n):
        for f,v in ast.iter_fields(n):
            if isinstance(n,(ast.FunctionDef,ast.Lambda,ast.ListComp,ast.GeneratorExp,ast.SetComp,ast.DictComp,ast.JoinedStr)) and n is not fn: return
            if f in('annotation','returns','decorator_list','type_params','args') and not isinstance(n,ast.Call): continue
            if isinstance(v,ast.expr):
                if not isinstance(getattr(v,'ctx',None),(ast.Store,ast.Del)): out.append((n,f,None,v))
                rec(v)
            elif isinstance(v,list):
                for i,x in enumerate(v):
                    if isinstance(x,ast.expr) and not isinstance(x,ast.Starred) and not isinstance(getattr(x,'ctx',None),(ast.Store,ast.Del)): out.append((n,f,i,x))
                    if isinstance(x,ast.AST): rec(x)
            elif isinstance(v,ast.AST): rec(v)
    rec(fn); return out
def _set(slot,v):
    n,f,i,_=slot
    if i is None: setattr(n,f,v)
    else: getattr(n,f)[i]=v
def r_exprhelper(fn,rng):
    loc=_locals(fn)
    c=[]
    for sl in _exprs(fn):
        n,f,i,e=sl
        if isinstance(e,(ast.BinOp,ast.Compare,ast.BoolOp,ast.Call,ast.Subscript,ast.IfExp)) and not isinstance(n,ast.Expr) and not (isinstance(n,ast.Call) and f=='func') and not isinstance(n,(ast.Raise,ast.FormattedValue,ast.Slice)) and not any(isinstance(x,(ast.Yield,ast.NamedExpr,ast.Await)) for x in ast.walk(e)) and not names_used(e)&_imported(fn) and 'super' not in names_used(e): c.append(sl)
    if not c: return None
    sl=rng.choice(c); e=sl[3]
    nested={y.id for x in ast.walk(fn) if isinstance(x,(ast.FunctionDef,ast.Lambda)) and x is not fn for y in ast.walk(x) if isinstance(y,ast.Name)}
    ins=sorted((names_used(e)&(loc|{x.name for x in ast.walk(fn) if isinstance(x,ast.FunctionDef) and x is not fn}))-_comp_vars(e))
    h=_mkfn('_helper_q',ins,[ast.Return(value=e)])
    _set(sl,ast.Call(func=L('_helper_q'),args=[L(x) for x in ins],keywords=[])); return fn,h
def r_constname(fn,rng):
    c=[sl for sl in _exprs(fn) if isinstance(sl[3],ast.Constant) and sl[3].value is not None and not isinstance(sl[3].value,(bool,)) and not isinstance(sl[0],ast.Expr)]
    if not c: return None
    sl=rng.choice(c); h=ast.Assign(targets=[S('CONST_Q')],value=ast.Constant(value=sl[3].value)); h.lineno=1
    _set(sl,L('CONST_Q')); return fn,h
def r_in(fn,rng):
    c=[]
    for sl in _exprs(fn):
        e=sl[3]
        if isinstance(e,ast.BoolOp) and isinstance(e.op,ast.Or) and all(isinstance(x,ast.Compare) and len(x.ops)==1 and isinstance(x.ops[0],ast.Eq) for x in e.values) and len({ast.dump(x.left) for x in e.values})==1: c.append((0,sl))
        if isinstance(e,ast.Compare) and len(e.ops)==1 and isinstance(e.ops[0],ast.In) and isinstance(e.comparators[0],(ast.Tuple,ast.List,ast.Set)) and not hascall(e.left): c.append((1,sl))
    if not c: return None
    k,sl=rng.choice(c); e=sl[3]
    if k==0: _set(sl,ast.Compare(left=e.values[0].left,ops=[ast.In()],comparators=[ast.Tuple(elts=[x.comparators[0] for x in e.values],ctx=ast.Load())]))
    else: _set(sl,ast.BoolOp(op=ast.Or(),values=[ast.Compare(left=copy.deepcopy(e.left),ops=[ast.Eq()],comparators=[x]) for x in e.comparators[0].elts]+([ast.Constant(value=False)] if len(e.comparators[0].elts)<2 else [])))
    return fn
def _defs_before(fn,stmts):
    """names surely assigned by the given prefix"""
    out={a.arg for a in fn.args.posonlyargs+fn.args.args+fn.args.kwonlyargs}
    def sure(bl):
        o=set()
        for s in bl:
            if isinstance(s,(ast.Assign,ast.AnnAssign)) and (not isinstance(s,ast.AnnAssign) or s.value is not None):
                for t in (s.targets if isinstance(s,ast.Assign) else [s.target]): o|=stored(t)
            elif isinstance(s,ast.If):
                a,b=sure(s.body),sure(s.orelse)
                ta=s.body and isinstance(s.body[-1],(ast.Return,ast.Raise)); tb=s.orelse and isinstance(s.orelse[-1],(ast.Return,ast.Raise))
                if ta and not tb: o|=b
                elif tb and not ta: o|=a
                else: o|=a&b
            elif isinstance(s,ast.FunctionDef): o.add(s.name)
        return o
    return out|sure(stmts)
def r_tail(fn,rng):
    body=fn.body
    start=1 if isinstance(body[0],ast.Expr) and isinstance(body[0].value,ast.Constant) else 0
    if len(body)-start<3: return None
    i=rng.randrange(start+1,len(body)); seg=body[i:]
    if any(isinstance(x,(ast.Yield,ast.YieldFrom,ast.Global,ast.Nonlocal)) for x in ast.walk(fn)): return None
    used=set().union(*[names_used(s) for s in seg])
    if used&_imported(fn) or 'super' in used: return None
    before=_defs_before(fn,body[start:i])
    mayb=stored(ast.Module(body=body[start:i],type_ignores=[]))|before
    ins=sorted(used&mayb)
    if set(ins)-before: return None
    h=_mkfn('_helper_q',ins,list(seg))
    body[i:]=[ast.Return(value=ast.Call(func=L('_helper_q'),args=[L(x) for x in ins],keywords=[]))]; return fn,h
def r_tupleassign(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i in range(len(b)-1):
            s,t=b[i],b[i+1]
            if all(isinstance(x,ast.Assign) and len(x.targets)==1 and isinstance(x.targets[0],ast.Name) for x in(s,t)) and s.targets[0].id not in names_used(t.value): c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); s,t=b[i],b[i+1]
    b[i:i+2]=[ast.Assign(targets=[ast.Tuple(elts=[s.targets[0],t.targets[0]],ctx=ast.Store())],value=ast.Tuple(elts=[s.value,t.value],ctx=ast.Load()))]; return fn
def r_whiletrue(fn,rng):
    return r_while(fn,rng)
def r_dupelse(fn,rng):
    """if c: A (no exit) ; rest  ->  if c: A; rest else: rest"""
    c=[]
    for o,f,b in blocks(fn):
        if o is not fn: continue
        for i,s in enumerate(b[:-1]):
            if isinstance(s,ast.If) and 1<=len(b)-i-1<=4 and not isinstance((s.orelse or s.body)[-1],(ast.Return,ast.Raise)) and not isinstance(s.body[-1],(ast.Return,ast.Raise)): c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); rest=b[i+1:]; del b[i+1:]
    b[i].body=b[i].body+copy.deepcopy(rest); b[i].orelse=b[i].orelse+rest; return fn
PURE={'U256','Uint','U64','U8','int','len','ulen','min','max','Bytes','bytes','range','Address','Bytes32'}
def _pure(e):
    for x in ast.walk(e):
        if isinstance(x,ast.Call) and not(isinstance(x.func,ast.Name) and x.func.id in PURE): return False
        if isinstance(x,(ast.Subscript,ast.BinOp,ast.Yield,ast.Await,ast.NamedExpr)): return False
    return True
def r_reorder(fn,rng):
    """swap two independent statements, one of them a pure local assignment that cannot raise"""
    c=[]
    for o,f,b in blocks(fn):
        for i in range(len(b)-1):
            for x,y in((b[i],b[i+1]),(b[i+1],b[i])):
                if isinstance(x,ast.Assign) and len(x.targets)==1 and isinstance(x.targets[0],ast.Name) and _pure(x.value) and isinstance(x.value,(ast.Constant,ast.Name,ast.Call)) and not any(isinstance(z,ast.Attribute) for z in ast.walk(x.value)) and isinstance(y,(ast.Assign,ast.Expr,ast.AugAssign)):
                    if x.targets[0].id in names_used(y) or stored(y)&names_used(x): continue
                    if isinstance(y,ast.Expr) and isinstance(y.value,ast.Constant): continue
                    c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); b[i],b[i+1]=b[i+1],b[i]; return fn
def r_hoist(fn,rng):
    """common trailing statement out of both branches / the reverse"""
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.If) and s.orelse and ast.dump(s.body[-1])==ast.dump(s.orelse[-1]) and not isinstance(s.body[-1],(ast.Return,ast.Raise,ast.Break,ast.Continue)) and len(s.body)>1 and len(s.orelse)>1: c.append((b,i,0))
            if isinstance(s,ast.If) and i+1<len(b) and isinstance(b[i+1],(ast.Expr,ast.Assign,ast.AugAssign)) and s.orelse: c.append((b,i,1))
    if not c: return None
    b,i,k=rng.choice(c); s=b[i]
    if k==0: b.insert(i+1,s.body.pop()); s.orelse.pop()
    else:
        t=b.pop(i+1)
        for q in (s.body,s.orelse):
            if not isinstance(q[-1],(ast.Return,ast.Raise,ast.Break,ast.Continue)): q.append(copy.deepcopy(t))
    return fn
def r_lenzero(fn,rng):
    """len(x) == 0 -> not x for names of containers; x != 0 -> x > 0 for Uint"""
    c=[sl for sl in _exprs(fn) if isinstance(sl[3],ast.Compare) and len(sl[3].ops)==1 and isinstance(sl[3].left,ast.Call) and isinstance(sl[3].left.func,ast.Name) and sl[3].left.func.id in('len','ulen') and isinstance(sl[3].comparators[0],ast.Constant) and sl[3].comparators[0].value==0 and type(sl[3].ops[0]) in(ast.Eq,ast.NotEq,ast.Gt)]
    if not c: return None
    sl=rng.choice(c); e=sl[3]
    k=rng.randrange(2)
    if k==0 and isinstance(e.ops[0],ast.Eq): _set(sl,ast.Compare(left=e.left,ops=[ast.Lt()],comparators=[ast.Constant(value=1)]))
    elif k==0: _set(sl,ast.Compare(left=e.left,ops=[ast.GtE()],comparators=[ast.Constant(value=1)]))
    elif isinstance(e.ops[0],ast.Eq): _set(sl,ast.UnaryOp(op=ast.Not(),operand=e.left.args[0]))
    else: _set(sl,ast.Call(func=L('bool'),args=[e.left.args[0]],keywords=[]))
    return fn
def r_forelse_any(fn,rng):
    """for x in xs: if c: raise E   ->  if any(c for x in xs): raise E"""
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.For) and len(s.body)==1 and isinstance(s.body[0],ast.If) and not s.body[0].orelse and len(s.body[0].body)==1 and isinstance(s.body[0].body[0],ast.Raise) and not stored(s.target)&names_used(s.body[0].body[0]) and not s.orelse: c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); s=b[i]; t=s.body[0]
    b[i]=ast.If(test=ast.Call(func=L('any'),args=[ast.GeneratorExp(elt=t.test,generators=[ast.comprehension(target=s.target,iter=s.iter,ifs=[],is_async=0)])],keywords=[]),body=t.body,orelse=[]); return fn
def r_closure(fn,rng):
    """nested def with a single return -> lambda, or a local helper def"""
    loc=_locals(fn)
    c=[sl for sl in _exprs(fn) if isinstance(sl[3],(ast.BinOp,ast.Compare,ast.Call)) and not isinstance(sl[0],(ast.Expr,ast.Raise)) and not(isinstance(sl[0],ast.Call) and sl[1]=='func') and not any(isinstance(x,(ast.Yield,ast.NamedExpr)) for x in ast.walk(sl[3])) and 'super' not in names_used(sl[3])]
    blk=[(o,f,b) for o,f,b in blocks(fn)]
    cc=[]
    for o,f,b in blk:
        for i,s in enumerate(b):
            if isinstance(s,(ast.Assign,ast.Return,ast.Expr,ast.AugAssign)):
                ids={id(x) for x in ast.walk(s)}
                for sl in c:
                    if id(sl[3]) in ids: cc.append((b,i,sl))
    if not cc: return None
    b,i,sl=rng.choice(cc)
    d=_mkfn('_local_q',[],[ast.Return(value=sl[3])])
    _set(sl,ast.Call(func=L('_local_q'),args=[],keywords=[])); b.insert(i,d); return fn
ALL={k:v for k,v in globals().items() if k.startswith('r_')}
