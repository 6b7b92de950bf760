"""Development harness: small semantic mutations."""
import ast, copy
from refactor import blocks, L
def is_msg(fn):
    """nodes inside raise arguments / f-strings (irrelevant)"""
    out=set()
    for x in ast.walk(fn):
        if isinstance(x,(ast.Raise,ast.JoinedStr,ast.Assert)):
            for y in ast.walk(x): out.add(id(y))
        if isinstance(x,ast.Expr) and isinstance(x.value,ast.Constant): 
            for y in ast.walk(x): out.add(id(y))
        if isinstance(x,(ast.AnnAssign,)) :
            for y in ast.walk(x.annotation): out.add(id(y))
        if isinstance(x,ast.arguments):
            for y in ast.walk(x): out.add(id(y))
        if isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id in('evm_trace','cast'):
            for y in ast.walk(x): out.add(id(y))
    if getattr(fn,'returns',None) is not None:
        for y in ast.walk(fn.returns): out.add(id(y))
    return out
def m_const(fn,rng):
    ig=is_msg(fn)
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Constant) and isinstance(x.value,int) and not isinstance(x.value,bool) and id(x) not in ig]
    if not c: return None
    x=rng.choice(c); x.value+=rng.choice([1,1,2]) if x.value==0 else rng.choice([-1,1]); return fn
def m_bool(fn,rng):
    ig=is_msg(fn)
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Constant) and isinstance(x.value,bool) and id(x) not in ig]
    if not c: return None
    x=rng.choice(c); x.value=not x.value; return fn
CM={ast.Lt:[ast.LtE],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE],ast.GtE:[ast.Gt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.In:[ast.NotIn],ast.NotIn:[ast.In],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is]}
def m_cmp(fn,rng):
    ig={id(y) for x in ast.walk(fn) if isinstance(x,ast.Assert) and False for y in ast.walk(x)}
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Compare)]
    if not c: return None
    x=rng.choice(c); x.ops[0]=rng.choice(CM[type(x.ops[0])])(); return fn
BM={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Add,ast.FloorDiv:ast.Mult,ast.Mod:ast.FloorDiv,ast.BitAnd:ast.BitOr,ast.BitOr:ast.BitAnd,ast.BitXor:ast.BitOr,ast.LShift:ast.RShift,ast.RShift:ast.LShift,ast.Pow:ast.Mult}
def m_bin(fn,rng):
    ig=is_msg(fn)
    c=[x for x in ast.walk(fn) if isinstance(x,(ast.BinOp,ast.AugAssign)) and type(x.op) in BM and id(x) not in ig]
    if not c: return None
    x=rng.choice(c); x.op=BM[type(x.op)](); return fn
def m_del(fn,rng):
    c=[]
    for o,f,b in blocks(fn):
        for i,s in enumerate(b):
            if isinstance(s,(ast.Pass,ast.Assert)) or (isinstance(s,ast.Expr) and isinstance(s.value,ast.Constant)): continue
            if isinstance(s,ast.Expr) and isinstance(s.value,ast.Call) and isinstance(s.value.func,ast.Name) and s.value.func.id=='evm_trace': continue
            if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name): continue
            if isinstance(s,(ast.AnnAssign,ast.Import,ast.ImportFrom,ast.FunctionDef)): continue
            if isinstance(s,ast.Return) and s.value is None: continue
            c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); b[i]=ast.Pass(); return fn
def m_neg(fn,rng):
    c=[x for x in ast.walk(fn) if isinstance(x,(ast.If,ast.While,ast.IfExp))]
    if not c: return None
    x=rng.choice(c); x.test=ast.UnaryOp(op=ast.Not(),operand=x.test); return fn
def m_andor(fn,rng):
    c=[x for x in ast.walk(fn) if isinstance(x,ast.BoolOp)]
    if not c: return None
    x=rng.choice(c); x.op=ast.Or() if isinstance(x.op,ast.And) else ast.And(); return fn
def m_dropcond(fn,rng):
    c=[x for x in ast.walk(fn) if isinstance(x,ast.BoolOp)]
    if not c: return None
    x=rng.choice(c); x.values.pop(rng.randrange(len(x.values)))
    if len(x.values)==1: x.values.append(ast.Constant(value=isinstance(x.op,ast.And)))
    return fn
def m_swaparg(fn,rng):
    ig=is_msg(fn)
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Call) and len(x.args)>=2 and id(x) not in ig and not(isinstance(x.func,ast.Name) and x.func.id in('min','max','cast')) and ast.dump(x.args[0])!=ast.dump(x.args[1])]
    if not c: return None
    x=rng.choice(c); x.args[0],x.args[1]=x.args[1],x.args[0]; return fn
def m_swapstmt(fn,rng):
    """swap two adjacent effectful statements"""
    c=[]
    for o,f,b in blocks(fn):
        for i in range(len(b)-1):
            s,t=b[i],b[i+1]
            if isinstance(s,(ast.Expr,ast.If)) and isinstance(t,(ast.Expr,ast.Assign,ast.AugAssign)) and not(isinstance(s,ast.Expr) and isinstance(s.value,ast.Constant)): c.append((b,i))
    if not c: return None
    b,i=rng.choice(c); b[i],b[i+1]=b[i+1],b[i]; return fn
ALT={'caller':'origin','current_target':'caller','gas_left':'refund_counter','nonce':'balance','origin':'coinbase','coinbase':'origin','max_fee_per_gas':'max_priority_fee_per_gas','gas':'value','value':'gas','code_address':'current_target','transactions_root':'receipt_root','number':'timestamp'}
def m_attr(fn,rng):
    ig=is_msg(fn)
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Attribute) and x.attr in ALT and id(x) not in ig]
    if not c: return None
    x=rng.choice(c); x.attr=ALT[x.attr]; return fn
def m_name(fn,rng):
    ig=is_msg(fn)
    loc=sorted({x.id for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}|{a.arg for a in fn.args.args})
    c=[x for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Load) and x.id in loc and id(x) not in ig]
    if not c or len(loc)<2: return None
    x=rng.choice(c); x.id=rng.choice([n for n in loc if n!=x.id]); return fn
ALL={k:v for k,v in globals().items() if k.startswith('m_')}
