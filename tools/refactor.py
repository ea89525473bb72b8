"""Behaviour-preserving transformations of the whole package; every check must stay quiet on each result.

    WORK=/tmp/refactor J=6 python3 tools/refactor.py [name or name+name ...]     (CHECKS="C01 C02" to select)

Transformed trees and copies of the checks are made below WORK and removed."""
import ast,sys,os,shutil,copy,subprocess,json
from multiprocessing import Pool
sys.setrecursionlimit(10000)
class Base(ast.NodeTransformer):
    pass
def localnames(fn):
    st=set()
    a=fn.args
    params={x.arg for x in a.posonlyargs+a.args+a.kwonlyargs}|({a.vararg.arg} if a.vararg else set())|({a.kwarg.arg} if a.kwarg else set())
    glob=set()
    for n in ast.walk(fn):
        if isinstance(n,(ast.Global,ast.Nonlocal)): glob|=set(n.names)
        if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Store): st.add(n.id)
    return st-params-glob, params
def has_nested(fn):
    return any(n is not fn and isinstance(n,(ast.FunctionDef,ast.Lambda,ast.ClassDef)) for n in ast.walk(fn))
class Rename(Base):
    def visit_FunctionDef(self,fn):
        if has_nested(fn): return fn
        loc,_=localnames(fn)
        m={x:'v_'+x for x in loc}
        for n in ast.walk(fn):
            if isinstance(n,ast.Name) and n.id in m: n.id=m[n.id]
        return fn
class IfInvert(Base):
    def visit_If(self,n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(),n.test),n.orelse,n.body)
        return n
    def visit_IfExp(self,n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(),n.test),n.orelse,n.body)
class CmpSwap(Base):
    M={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)==1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0],[self.M[type(n.ops[0])]()],[n.left])
        return n
class NotCmp(Base):
    M={ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Is:ast.IsNot,ast.IsNot:ast.Is,ast.In:ast.NotIn,ast.NotIn:ast.In}
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)==1 and type(n.ops[0]) in self.M:
            return ast.UnaryOp(ast.Not(),ast.Compare(n.left,[self.M[type(n.ops[0])]()],n.comparators))
        return n
def pure(e):
    return True
class TempArgs(Base):
    """Hoist non-trivial call arguments of simple statements into temporaries (only first-evaluated call)."""
    def __init__(self): self.k=0
    def do(self,stmts):
        out=[]
        for s in stmts:
            for f in ('body','orelse','finalbody'):
                if hasattr(s,f) and isinstance(getattr(s,f),list) and not isinstance(s,(ast.ClassDef,)):
                    setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.Call) :
                c=s.value
                ok=isinstance(c.func,ast.Name) or (isinstance(c.func,ast.Attribute) and isinstance(c.func.value,ast.Name))
                if ok and not any(isinstance(a,ast.Starred) for a in c.args):
                    for i,a in enumerate(c.args):
                        if isinstance(a,(ast.Call,ast.BinOp,ast.Subscript,ast.Attribute)) and not any(isinstance(x,(ast.Lambda,ast.GeneratorExp)) for x in ast.walk(a)):
                            if isinstance(a,ast.Attribute) and isinstance(a.value,ast.Name) and a.value.id in('np','numba'): continue
                            self.k+=1; t=f'tmp_{self.k}'
                            out.append(ast.Assign([ast.Name(t,ast.Store())],a)); c.args[i]=ast.Name(t,ast.Load())
            out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        fn.body=self.do(fn.body); return fn
class RetTemp(Base):
    def do(self,stmts):
        out=[]
        for s in stmts:
            if isinstance(s,(ast.FunctionDef,ast.ClassDef)): out.append(s); continue
            for f in ('body','orelse','finalbody'):
                if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,ast.Return) and s.value is not None and not isinstance(s.value,(ast.Name,ast.Constant)):
                out.append(ast.Assign([ast.Name('result_',ast.Store())],s.value)); s.value=ast.Name('result_',ast.Load())
            out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        fn.body=self.do(fn.body); return fn
class ForWhile(Base):
    """for i in range(a[,b]) -> while, when the body has no continue and does not assign i"""
    def __init__(self): self.k=0
    def visit_For(self,n):
        self.generic_visit(n)
        it=n.iter
        if not(isinstance(it,ast.Call) and isinstance(it.func,ast.Name) and it.func.id=='range' and len(it.args) in(1,2) and isinstance(n.target,ast.Name) and not n.orelse): return n
        if any(isinstance(x,ast.Continue) for b in n.body for x in ast.walk(b)): return n
        if any(isinstance(x,ast.Name) and x.id==n.target.id and isinstance(x.ctx,ast.Store) for b in n.body for x in ast.walk(b)): return n
        self.k+=1
        a=it.args[0] if len(it.args)==2 else ast.Constant(0); b=it.args[-1]
        lim=f'lim_{self.k}'; cnt=f'cnt_{self.k}'
        return [ast.Assign([ast.Name(lim,ast.Store())],b),ast.Assign([ast.Name(cnt,ast.Store())],a),
          ast.While(ast.Compare(ast.Name(cnt,ast.Load()),[ast.Lt()],[ast.Name(lim,ast.Load())]),
            [ast.Assign([ast.Name(n.target.id,ast.Store())],ast.Name(cnt,ast.Load()))]+n.body+[ast.AugAssign(ast.Name(cnt,ast.Store()),ast.Add(),ast.Constant(1))],[])]
class ImplSplit(Base):
    """def f(args): body -> def f(args): return _f_impl(args)"""
    def visit_Module(self,m):
        out=[]
        for s in m.body:
            if isinstance(s,ast.FunctionDef) and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs and not s.args.posonlyargs \
               and not any(isinstance(n,(ast.Yield,ast.YieldFrom)) for n in ast.walk(s)) and not s.decorator_list:
                doc=s.body[:1] if isinstance(s.body[0],ast.Expr) and isinstance(s.body[0].value,ast.Constant) else []
                body=s.body[len(doc):]
                if not body: out.append(s); continue
                impl=ast.FunctionDef('_'+s.name+'_impl',ast.arguments([],[ast.arg(a.arg) for a in s.args.args],None,[],[],None,[]),body,[],None,None)
                impl.type_params=[]
                out.append(impl)
                s.body=doc+[ast.Return(ast.Call(ast.Name(impl.name,ast.Load()),[ast.Name(a.arg,ast.Load()) for a in s.args.args],[]))]
            out.append(s)
        m.body=out; return m
class ElseReturn(Base):
    """if c: ...return ; rest  -> if c: ...return else: rest"""
    def do(self,stmts):
        for i,s in enumerate(stmts):
            if isinstance(s,(ast.FunctionDef,ast.ClassDef)): continue
            for f in ('body','orelse'):
                if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,ast.If) and not s.orelse and s.body and isinstance(s.body[-1],(ast.Return,ast.Raise)) and i+1<len(stmts):
                s.orelse=self.do(stmts[i+1:]); return stmts[:i+1]
        return stmts
    def visit_FunctionDef(self,fn):
        fn.body=self.do(fn.body); return fn
class FlattenElse(Base):
    """if c: return x else: y -> if c: return x ; y"""
    def do(self,stmts):
        out=[]
        for s in stmts:
            if not isinstance(s,(ast.FunctionDef,ast.ClassDef)):
                for f in ('body','orelse'):
                    if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            out.append(s)
            if isinstance(s,ast.If) and s.orelse and isinstance(s.body[-1],(ast.Return,ast.Raise)):
                out+=s.orelse; s.orelse=[]
        return out
    def visit_FunctionDef(self,fn):
        fn.body=self.do(fn.body); return fn
class IfExpStmt(Base):
    """x = a if c else b -> if c: x=a else: x=b ; return likewise"""
    def do(self,stmts):
        out=[]
        for s in stmts:
            if not isinstance(s,(ast.FunctionDef,ast.ClassDef)):
                for f in ('body','orelse'):
                    if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.IfExp):
                v=s.value
                a=copy.deepcopy(s); a.value=v.body; b=copy.deepcopy(s); b.value=v.orelse
                out.append(ast.If(v.test,[a],[b]))
            else: out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        fn.body=self.do(fn.body); return fn
class Comp2Loop(Base):
    """x = [e for t in it] -> loop with append (Assign / Return)"""
    def __init__(self): self.k=0
    def do(self,stmts,names):
        out=[]
        for s in stmts:
            if not isinstance(s,(ast.FunctionDef,ast.ClassDef)):
                for f in ('body','orelse'):
                    if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f),names))
            v=getattr(s,'value',None)
            if isinstance(s,(ast.Assign,ast.Return)) and isinstance(v,ast.ListComp) and len(v.generators)==1 and not v.generators[0].is_async:
                g=v.generators[0]; tn={x.id for x in ast.walk(g.target) if isinstance(x,ast.Name)}
                if tn & names: out.append(s); continue
                self.k+=1; t=f'acc_{self.k}'
                inner=[ast.Expr(ast.Call(ast.Attribute(ast.Name(t,ast.Load()),'append',ast.Load()),[v.elt],[]))]
                for c in reversed(g.ifs): inner=[ast.If(c,inner,[])]
                out.append(ast.Assign([ast.Name(t,ast.Store())],ast.List([],ast.Load())))
                out.append(ast.For(g.target,g.iter,inner,[]))
                s.value=ast.Name(t,ast.Load())
            out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list) or has_nested(fn): return fn
        comp=set()
        for n in ast.walk(fn):
            if isinstance(n,ast.comprehension): comp|={id(x) for x in ast.walk(n.target)}
        names={n.id for n in ast.walk(fn) if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Store) and id(n) not in comp}|{a.arg for a in fn.args.args}
        # names used by several comprehensions are fine
        fn.body=self.do(fn.body,names); return fn
class MatMul(Base):
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.MatMult):
            return ast.Call(ast.Attribute(ast.Name('np',ast.Load()),'matmul',ast.Load()),[n.left,n.right],[])
        return n
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list): return fn
        return self.generic_visit(fn)
class DotT(Base):
    def visit_Attribute(self,n):
        self.generic_visit(n)
        if n.attr=='T' and isinstance(n.ctx,ast.Load):
            return ast.Call(ast.Attribute(n.value,'transpose',ast.Load()),[],[])
        return n
class KwPos(Base):
    """local package calls: positional -> keyword for known functions"""
    FUN={}
    def visit_Call(self,n):
        self.generic_visit(n)
        if isinstance(n.func,ast.Name) and n.func.id in self.FUN and not any(isinstance(a,ast.Starred) for a in n.args):
            ps=self.FUN[n.func.id]
            if ps and len(n.args)<=len(ps):
                n.keywords=[ast.keyword(ps[i],a) for i,a in enumerate(n.args)]+n.keywords; n.args=[]
        return n
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list): return fn
        return self.generic_visit(fn)
class NumpyAlias(Base):
    """np -> numpy"""
    def visit_Import(self,n):
        for a in n.names:
            if a.name=='numpy': a.asname=None
        return n
    def visit_Name(self,n):
        if n.id=='np': n.id='numpy'
        return n
class Dead(Base):
    def visit_FunctionDef(self,fn):
        self.generic_visit(fn)
        i=1 if isinstance(fn.body[0],ast.Expr) and isinstance(fn.body[0].value,ast.Constant) else 0
        fn.body.insert(i,ast.Assign([ast.Name('_unused',ast.Store())],ast.Constant(0)))
        for n in ast.walk(fn):
            if isinstance(n,(ast.For,ast.While,ast.If)): n.body.insert(0,ast.Pass())
        return fn
class AugExpand(Base):
    """scalar/name x += e -> x = x + e only when target is Name (rebinding arrays too: local arrays only semantics kept if not aliased)"""
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list): return fn
        return self.generic_visit(fn)
    def visit_AugAssign(self,n):
        if isinstance(n.target,ast.Name):
            return ast.Assign([ast.Name(n.target.id,ast.Store())],ast.BinOp(ast.Name(n.target.id,ast.Load()),n.op,n.value))
        return n
class Annot(Base):
    """x = e -> x: object = e ... plus shape alias: A.shape[0] -> len(A)"""
    def visit_Subscript(self,n):
        self.generic_visit(n)
        if isinstance(n.value,ast.Attribute) and n.value.attr=='shape' and isinstance(n.slice,ast.Constant) and n.slice.value==0 and isinstance(n.ctx,ast.Load):
            return ast.Call(ast.Name('len',ast.Load()),[n.value.value],[])
        return n
class LenShape(Base):
    def visit_FunctionDef(self,fn):
        return self.generic_visit(fn)
class Demorgan(Base):
    def visit_BoolOp(self,n):
        self.generic_visit(n)
        o=ast.And() if isinstance(n.op,ast.Or) else ast.Or()
        return ast.UnaryOp(ast.Not(),ast.BoolOp(o,[ast.UnaryOp(ast.Not(),v) for v in n.values]))
    def visit_FunctionDef(self,fn):
        # only in tests
        for n in ast.walk(fn):
            if isinstance(n,(ast.If,ast.While,ast.IfExp)): n.test=self.visit(n.test)
        return fn
class AndNest(Base):
    """if a and b: X (no else) -> if a: if b: X"""
    def visit_If(self,n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.And):
            b=n.body
            for t in reversed(n.test.values): b=[ast.If(t,b,[])]
            return b[0]
        return n
class OrSplit(Base):
    """if a or b: raise/return -> if a: ...; if b: ..."""
    def visit_If(self,n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.Or) and isinstance(n.body[-1],(ast.Raise,ast.Return)):
            return [ast.If(t,copy.deepcopy(n.body),[]) for t in n.test.values]
        return n
class TestVar(Base):
    """if expr: -> cond_k = expr ; if cond_k:"""
    def __init__(self): self.k=0
    def do(self,stmts):
        out=[]
        for s in stmts:
            if not isinstance(s,(ast.FunctionDef,ast.ClassDef)):
                for f in ('body','orelse'):
                    if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,ast.If) and not isinstance(s.test,ast.Name):
                self.k+=1; t=f'cond_{self.k}'
                out.append(ast.Assign([ast.Name(t,ast.Store())],s.test)); s.test=ast.Name(t,ast.Load())
            out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        fn.body=self.do(fn.body); return fn
class RaiseHelper(Base):
    """raise X(msg) -> helper? err = X(msg); raise err"""
    def do(self,stmts):
        out=[]
        for s in stmts:
            if not isinstance(s,(ast.FunctionDef,ast.ClassDef)):
                for f in ('body','orelse'):
                    if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,ast.Raise) and isinstance(s.exc,ast.Call):
                out.append(ast.Assign([ast.Name('error_',ast.Store())],s.exc)); s.exc=ast.Name('error_',ast.Load())
            out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list): return fn
        fn.body=self.do(fn.body); return fn
class ListCall(Base):
    """[e for ..] -> list(e for ..)"""
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list): return fn
        return self.generic_visit(fn)
    def visit_ListComp(self,n):
        self.generic_visit(n)
        return ast.Call(ast.Name('list',ast.Load()),[ast.GeneratorExp(n.elt,n.generators)],[])
class SplitAssign(Base):
    """a, b = x, y with simple independent -> temp"""
    def do(self,stmts):
        out=[]
        for s in stmts:
            if not isinstance(s,(ast.FunctionDef,ast.ClassDef)):
                for f in ('body','orelse'):
                    if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Tuple) and isinstance(s.value,ast.Call) and all(isinstance(t,ast.Name) for t in s.targets[0].elts):
                out.append(ast.Assign([ast.Name('parts_',ast.Store())],s.value))
                for i,t in enumerate(s.targets[0].elts): out.append(ast.Assign([t],ast.Subscript(ast.Name('parts_',ast.Load()),ast.Constant(i),ast.Load())))
                continue
            out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        fn.body=self.do(fn.body); return fn
ALL=dict(rename=Rename,ifinvert=IfInvert,cmpswap=CmpSwap,notcmp=NotCmp,tempargs=TempArgs,rettemp=RetTemp,forwhile=ForWhile,impl=ImplSplit,elsereturn=ElseReturn,
 flatten=FlattenElse,ifexp=IfExpStmt,comp=Comp2Loop,matmul=MatMul,dott=DotT,kwpos=KwPos,alias=NumpyAlias,dead=Dead,aug=AugExpand,lenshape=Annot,demorgan=Demorgan,
 andnest=AndNest,orsplit=OrSplit,testvar=TestVar,raisevar=RaiseHelper,listcall=ListCall,parts=SplitAssign)
def make(name,dst,repo='/repo'):
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(repo+'/thewalrus',dst+'/thewalrus',ignore=shutil.ignore_patterns('__pycache__'))
    funs={}
    files=[]
    for root,_,fs in os.walk(dst+'/thewalrus'):
        if '/tests' in root: continue
        for f in fs:
            if f.endswith('.py'): files.append(os.path.join(root,f))
    for f in files:
        for n in ast.parse(open(f).read()).body:
            if isinstance(n,ast.FunctionDef) and not n.args.vararg and not n.args.posonlyargs:
                p=[a.arg for a in n.args.args]
                funs[n.name]=p if n.name not in funs or funs[n.name]==p else None
    KwPos.FUN={k:v for k,v in funs.items() if v and not k.startswith('_calc')}
    for f in files:
        t=ast.parse(open(f).read())
        for nm in name.split('+'):
            t=ALL[nm]().visit(t); ast.fix_missing_locations(t)
            t=ast.parse(ast.unparse(t))
        open(f,'w').write(ast.unparse(t)+'\n')
PROPS=os.environ.get('CHECKS','C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C15 C16 C17').split()
def one(a):
    name,prop=a
    v=f'{WORK}/v_{name}_{prop}'
    shutil.rmtree(v,ignore_errors=True); shutil.copytree(os.environ.get('VER',HERE),v,ignore=shutil.ignore_patterns('.git','seeded','evidence','__pycache__'))
    try:
        r=subprocess.run([sys.executable,'-B','check.py',prop],cwd=v,env=dict(os.environ,WALRUS_REPO=f'{WORK}/{name}'),capture_output=True,text=True,timeout=900)
        return name,prop,r.returncode,(r.stdout+r.stderr)[-1500:]
    except subprocess.TimeoutExpired: return name,prop,99,'timeout'
    finally: shutil.rmtree(v)
def names_loaded(stmts):
    out=[]
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n,ast.Name): out.append(n.id)
    return out
def stored(stmts):
    o=set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Store): o.add(n.id)
            if isinstance(n,(ast.FunctionDef,)): o.add(n.name)
            if isinstance(n,ast.alias): o.add((n.asname or n.name).split('.')[0])
    return o
def has(stmts,types):
    return any(isinstance(n,types) for s in stmts for n in ast.walk(s))
def compnames(stmts):
    return {x.id for s in stmts for n in ast.walk(s) if isinstance(n,ast.comprehension) for x in ast.walk(n.target) if isinstance(x,ast.Name)}
def mkfun(name,params,body,decos=()):
    f=ast.FunctionDef(name,ast.arguments([],[ast.arg(p) for p in params],None,[],[],None,[]),body,[copy.deepcopy(d) for d in decos],None,None); f.type_params=[]; return f
def mkcall(name,args): return ast.Call(ast.Name(name,ast.Load()),[ast.Name(a,ast.Load()) for a in args],[])
def docsplit(body):
    if body and isinstance(body[0],ast.Expr) and isinstance(body[0].value,ast.Constant): return body[:1],body[1:]
    return [],body
def okfun(s):
    return isinstance(s,ast.FunctionDef) and not s.args.vararg and not s.args.kwarg and not has([s],(ast.Yield,ast.YieldFrom,ast.Nonlocal,ast.Global)) and \
       not any(isinstance(n,ast.FunctionDef) and n is not s for n in ast.walk(s)) and not any(isinstance(n,(ast.Lambda)) for n in ast.walk(s)) and not any('vectorize' in ast.unparse(d) for d in s.decorator_list)
def params(s): return [a.arg for a in s.args.posonlyargs+s.args.args+s.args.kwonlyargs]
def definitely(stmts,bound):
    """names definitely bound after"""
    b=set(bound)
    for s in stmts:
        if isinstance(s,(ast.Assign,ast.AugAssign,ast.AnnAssign)): b|=stored([s])
        elif isinstance(s,ast.If):
            def term(x): return x and isinstance(x[-1],(ast.Raise,ast.Return))
            p=definitely(s.body,b); q=definitely(s.orelse,b)
            b = q if term(s.body) else p if term(s.orelse) else p&q
        elif isinstance(s,(ast.With,)): b=definitely(s.body,b)
    return b
class Tail(Base):
    """extract the second half of the body into a helper"""
    def visit_Module(self,m):
        out=[]
        for s in m.body:
            if okfun(s):
                doc,body=docsplit(s.body)
                k=len(body)//2
                par='parallel' in ' '.join(ast.unparse(d) for d in s.decorator_list) 
                if len(body)>=4:
                    head,tail=body[:k],body[k:]
                    vs=[v for v in dict.fromkeys(names_loaded(tail)) if v in (stored(head)|set(params(s))) and not (v in compnames(tail) and v not in set(params(s)))]
                    ok=definitely(head,params(s))
                    if all(v in ok for v in vs):
                        decos=[d for d in s.decorator_list if 'jit' in ast.unparse(d)]
                        if len(decos)==len(s.decorator_list):
                            nm=s.name+'_rest'; nm=nm if nm[0]=='_' else '_p'+nm; out.append(mkfun(nm,vs,tail,decos))
                            s.body=doc+head+[ast.Return(mkcall(nm,vs))]
            out.append(s)
        m.body=out; return m
class Guards(Base):
    """extract leading 'if ..: raise' statements into a validator"""
    def visit_Module(self,m):
        out=[]
        for s in m.body:
            if okfun(s) and not s.decorator_list:
                doc,body=docsplit(s.body)
                i=0; new=[]
                while i<len(body):
                    j=i
                    while j<len(body) and isinstance(body[j],ast.If) and not body[j].orelse and len(body[j].body)==1 and isinstance(body[j].body[0],ast.Raise): j+=1
                    if j>i:
                        vs=[v for v in dict.fromkeys(names_loaded(body[i:j])) if v in (stored(body[:i])|set(params(s)))]
                        nm=f'_validate_{s.name.lstrip("_")}_{i}'
                        out.append(mkfun(nm,vs,body[i:j])); new.append(ast.Expr(mkcall(nm,vs))); i=j
                    else: new.append(body[i]); i+=1
                s.body=doc+new
            out.append(s)
        m.body=out; return m
class LoopBody(Base):
    """extract innermost for body (only element stores/appends, no rebinding escaping, no break/continue/return) into helper"""
    def visit_Module(self,m):
        out=[]; self.k=0
        for s in m.body:
            if okfun(s) and not any('jit' in ast.unparse(d) for d in s.decorator_list):
                P=set(params(s))
                def go(stmts):
                    for st in stmts:
                        if isinstance(st,ast.For) and not has(st.body,(ast.Break,ast.Continue,ast.Return,ast.For,ast.While,ast.Raise)) and not st.orelse:
                            inn=stored(st.body)
                            # inner-bound names must not be used elsewhere in the function
                            cntin={n:names_loaded(st.body).count(n) for n in inn}
                            if all(names_loaded(s.body).count(n)==c for n,c in cntin.items()) and not any(isinstance(x,ast.AugAssign) and isinstance(x.target,ast.Name) for b in st.body for x in ast.walk(b)):
                                allst=stored(s.body)|P
                                vs=[v for v in dict.fromkeys(names_loaded(st.body)) if v in allst and v not in inn]
                                if definitely is not None and not (set(vs)&inn):
                                    self.k+=1; nm=f'_{s.name.lstrip("_")}_step{self.k}'
                                    out.append(mkfun(nm,vs,st.body)); st.body=[ast.Expr(mkcall(nm,vs))]
                                    continue
                        for f in ('body','orelse'):
                            if hasattr(st,f) and isinstance(getattr(st,f),list): go(getattr(st,f))
                go(s.body)
            out.append(s)
        m.body=out; return m
class RetExpr(Base):
    """extract every non-trivial returned expression and assigned BinOp into a helper"""
    def visit_Module(self,m):
        out=[]; k=0
        for s in m.body:
            if okfun(s) and not any('jit' in ast.unparse(d) for d in s.decorator_list):
                L=stored(s.body)|set(params(s))
                for n in ast.walk(s):
                    if isinstance(n,(ast.Return,ast.Assign)) and isinstance(n.value,(ast.BinOp,ast.Call,ast.Compare)) and not has([n.value],(ast.ListComp,ast.GeneratorExp,ast.SetComp,ast.DictComp,ast.Starred)):
                        if isinstance(n,ast.Assign) and not isinstance(n.value,ast.BinOp): continue
                        vs=[v for v in dict.fromkeys(names_loaded([n.value])) if v in L]
                        k+=1; nm=f'_expr_{s.name}_{k}'
                        out.append(mkfun(nm,vs,[ast.Return(n.value)])); n.value=mkcall(nm,vs)
            out.append(s)
        m.body=out; return m
class Swap(Base):
    """swap adjacent independent simple assignments"""
    def do(self,b):
        i=0
        while i+1<len(b):
            x,y=b[i],b[i+1]
            if all(isinstance(t,ast.Assign) and all(isinstance(z,ast.Name) for z in t.targets) for t in (x,y)):
                sx,sy=stored([x]),stored([y])
                rnd=any('random' in ast.unparse(t) or 'choice' in ast.unparse(t) or 'pop' in ast.unparse(t) for t in (x,y))
                if not(sx&set(names_loaded([y]))) and not(sy&set(names_loaded([x]))) and not rnd:
                    b[i],b[i+1]=y,x; i+=2; continue
            i+=1
        for s in b:
            for f in ('body','orelse'):
                if hasattr(s,f) and isinstance(getattr(s,f),list): self.do(getattr(s,f))
    def visit_FunctionDef(self,fn): self.do(fn.body); return fn
class IdxChain(Base):
    """A[i, j] -> A[i][j] for plain loads with simple non-slice indices"""
    def visit_Subscript(self,n):
        self.generic_visit(n)
        if isinstance(n.ctx,ast.Load) and isinstance(n.slice,ast.Tuple) and len(n.slice.elts)==2 and all(isinstance(e,(ast.Name,ast.Constant,ast.BinOp)) and not(isinstance(e,ast.Constant) and (e.value is None or e.value is Ellipsis)) for e in n.slice.elts) and isinstance(n.value,ast.Name):
            if not all(isinstance(e,ast.Constant) or (isinstance(e,ast.Name) and len(e.id)==1) for e in n.slice.elts): return n
            return ast.Subscript(ast.Subscript(n.value,n.slice.elts[0],ast.Load()),n.slice.elts[1],ast.Load())
        return n
class Pow(Base):
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Pow) and isinstance(n.right,ast.Constant) and n.right.value==2 and isinstance(n.left,(ast.Name,ast.Attribute)):
            return ast.BinOp(n.left,ast.Mult(),copy.deepcopy(n.left))
        if isinstance(n.op,ast.Mult) and isinstance(n.left,ast.Constant) and n.left.value==2 and isinstance(n.right,ast.Name):
            return ast.BinOp(n.right,ast.Add(),copy.deepcopy(n.right))
        if isinstance(n.op,ast.FloorDiv) and isinstance(n.right,ast.Constant) and n.right.value==2 and isinstance(n.left,ast.Name):
            return ast.BinOp(n.left,ast.RShift(),ast.Constant(1))
        return n
class Contin(Base):
    """loop ending with if c: body -> if not c: continue; body"""
    def visit_For(self,n):
        self.generic_visit(n)
        l=n.body[-1]
        if isinstance(l,ast.If) and not l.orelse:
            n.body=n.body[:-1]+[ast.If(ast.UnaryOp(ast.Not(),l.test),[ast.Continue()],[])]+l.body
        return n
class WhileTrue(Base):
    def visit_While(self,n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test,ast.Constant): return n
        return ast.While(ast.Constant(True),[ast.If(ast.UnaryOp(ast.Not(),n.test),[ast.Break()],[])]+n.body,[])
class NpMeth(Base):
    """np.conj(x)->x.conj() for names only when x is certainly an array is unknowable; do x.conj()->np.conj(x), x.real->np.real(x), x.T->np.transpose(x), x.sum()->np.sum(x)"""
    def visit_Call(self,n):
        self.generic_visit(n)
        if isinstance(n.func,ast.Attribute) and n.func.attr in('conj','conjugate','sum','copy','transpose','reshape','diagonal','trace','argsort','dot','round','max','min','prod','astype') and not(isinstance(n.func.value,ast.Name) and n.func.value.id in('np','numpy','sp','copy','linalg','math')):
            if n.func.attr in('astype',): return n
            if n.func.attr=='copy' : return n
            if n.func.attr=='reshape' and len(n.args)>1: return ast.Call(ast.Attribute(ast.Name('np',ast.Load()),'reshape',ast.Load()),[n.func.value,ast.Tuple(n.args,ast.Load())],n.keywords)
            if n.func.attr=='transpose' and len(n.args)>1: return n
            return ast.Call(ast.Attribute(ast.Name('np',ast.Load()),n.func.attr,ast.Load()),[n.func.value]+n.args,n.keywords)
        return n
    def visit_Attribute(self,n):
        self.generic_visit(n)
        if isinstance(n.ctx,ast.Load) and n.attr in('real','imag') and not(isinstance(n.value,ast.Name) and n.value.id in('np','numpy')):
            return ast.Call(ast.Attribute(ast.Name('np',ast.Load()),n.attr,ast.Load()),[n.value],[])
        return n
class Chain(Base):
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)>1:
            l=n.left; vs=[]
            for o,c in zip(n.ops,n.comparators): vs.append(ast.Compare(l,[o],[c])); l=copy.deepcopy(c)
            return ast.BoolOp(ast.And(),vs)
        return n
class TupSplit(Base):
    """a, b = x, y -> t=x; b=y; a=t"""
    def __init__(self): self.k=0
    def visit_Assign(self,n):
        if len(n.targets)==1 and isinstance(n.targets[0],ast.Tuple) and isinstance(n.value,ast.Tuple) and len(n.value.elts)==len(n.targets[0].elts) and not any(isinstance(e,ast.Starred) for e in n.value.elts+n.targets[0].elts):
            out=[];self.k+=1
            for i,e in enumerate(n.value.elts): out.append(ast.Assign([ast.Name(f'tup{self.k}_{i}',ast.Store())],e))
            for i,t in enumerate(n.targets[0].elts): out.append(ast.Assign([t],ast.Name(f'tup{self.k}_{i}',ast.Load())))
            return out
        return n
class LoopComp(Base):
    """x=[]; for t in it: x.append(e) -> x=[e for t in it]"""
    def do(self,b):
        out=[];i=0
        while i<len(b):
            s=b[i]
            for f in('body','orelse'):
                if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if i+1<len(b) and isinstance(s,ast.Assign) and isinstance(s.value,ast.List) and not s.value.elts and isinstance(s.targets[0],ast.Name):
                f=b[i+1]; x=s.targets[0].id
                if isinstance(f,ast.For) and len(f.body)==1 and isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Call) and ast.unparse(f.body[0].value.func)==x+'.append' and x not in names_loaded([f.iter]+f.body[0].value.args):
                    out.append(ast.Assign(s.targets,ast.ListComp(f.body[0].value.args[0],[ast.comprehension(f.target,f.iter,[],0)]))); i+=2; continue
            out.append(s); i+=1
        return out
    def visit_FunctionDef(self,fn): fn.body=self.do(fn.body); return fn
class Enum(Base):
    """for x in it (Name/Call) -> for idx_, x in enumerate(it)   (non-jit)"""
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list): return fn
        return self.generic_visit(fn)
    def visit_For(self,n):
        self.generic_visit(n)
        n.iter=ast.Call(ast.Name('enumerate',ast.Load()),[n.iter],[]); n.target=ast.Tuple([ast.Name('_pos',ast.Store()),n.target],ast.Store())
        return n
class Elif(Base):
    """if a: X(no return) elif b: Y else Z -> flagless nested via else already; here: raise-ending guards -> if/else nesting"""
    def do(self,b):
        for i,s in enumerate(b):
            for f in('body','orelse'):
                if hasattr(s,f) and isinstance(getattr(s,f),list) and not isinstance(s,ast.FunctionDef): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,ast.If) and not s.orelse and isinstance(s.body[-1],ast.Raise) and i+1<len(b):
                return b[:i]+[ast.If(ast.UnaryOp(ast.Not(),s.test),self.do(b[i+1:]),s.body)]
        return b
    def visit_FunctionDef(self,fn):
        d,b=docsplit(fn.body); fn.body=d+self.do(b); return fn
class Consts(Base):
    """default hbar etc stay; hoist float/int constants used in calls into module constants"""
    def visit_Module(self,m):
        self.c={}
        for s in m.body:
            if isinstance(s,ast.FunctionDef) and not any('jit' in ast.unparse(d) for d in s.decorator_list):
                for x in s.body: self.generic_visit(x)
        imp=[i for i,s in enumerate(m.body) if isinstance(s,(ast.Import,ast.ImportFrom))]
        k=(imp[-1]+1) if imp else 0
        new=[ast.Assign([ast.Name(v,ast.Store())],ast.Constant(c)) for c,v in self.c.items()]
        m.body=m.body[:k]+new+m.body[k:]
        return m
    def visit_Constant(self,n):
        if isinstance(n.value,float):
            v=self.c.setdefault(n.value,f'_CONST_{len(self.c)}'); return ast.Name(v,ast.Load())
        return n
class SingleExit(Base):
    """if c: return a ; ... return b  -> result variable (top-level if/return chains only)"""
    def visit_FunctionDef(self,fn):
        d,b=docsplit(fn.body)
        if any('jit' in ast.unparse(x) for x in fn.decorator_list): return fn
        for i,s in enumerate(b):
            if isinstance(s,ast.If) and not s.orelse and isinstance(s.body[-1],ast.Return) and isinstance(b[-1],ast.Return) and sum(isinstance(n,ast.Return) for n in ast.walk(fn))==2 and s.body[-1].value is not None and b[-1].value is not None:
                r=lambda v: ast.Assign([ast.Name('outcome',ast.Store())],v)
                fn.body=d+b[:i]+[ast.If(s.test,s.body[:-1]+[r(s.body[-1].value)],b[i+1:-1]+[r(b[-1].value)]),ast.Return(ast.Name('outcome',ast.Load()))]
                return fn
        return fn
class Alias1(Base):
    """first statement: local alias for each array parameter used: p_ = p, use p_ everywhere if p never stored"""
    def visit_FunctionDef(self,fn):
        if not okfun(fn): return fn
        st=stored(fn.body); d,b=docsplit(fn.body)
        mp={p:p+'_in' for p in params(fn) if p not in st}
        for s in b:
            for n in ast.walk(s):
                if isinstance(n,ast.Name) and n.id in mp: n.id=mp[n.id]
        fn.body=d+[ast.Assign([ast.Name(v,ast.Store())],ast.Name(k,ast.Load())) for k,v in mp.items()]+b
        return fn
class KwDict(Base):
    """f(x, k=v) -> opts={'k':v}; f(x, **opts) in return/assign statements"""
    def do(self,b):
        out=[]
        for s in b:
            if not isinstance(s,ast.FunctionDef):
                for f in('body','orelse'):
                    if hasattr(s,f) and isinstance(getattr(s,f),list): setattr(s,f,self.do(getattr(s,f)))
            if isinstance(s,(ast.Return,ast.Assign)) and isinstance(s.value,ast.Call) and isinstance(s.value.func,ast.Name) and s.value.keywords and all(k.arg for k in s.value.keywords):
                out.append(ast.Assign([ast.Name('opts_',ast.Store())],ast.Dict([ast.Constant(k.arg) for k in s.value.keywords],[k.value for k in s.value.keywords])))
                s.value.keywords=[ast.keyword(None,ast.Name('opts_',ast.Load()))]
            out.append(s)
        return out
    def visit_FunctionDef(self,fn):
        if any('jit' in ast.unparse(d) for d in fn.decorator_list): return fn
        fn.body=self.do(fn.body); return fn
class Partial(Base):
    """wrap: g = partial? skip"""
class MoveMod(Base):
    """nothing"""
N=dict(tail=Tail,guards=Guards,loopbody=LoopBody,retexpr=RetExpr,swap=Swap,idxchain=IdxChain,pow=Pow,contin=Contin,whiletrue=WhileTrue,npmeth=NpMeth,chain=Chain,tupsplit=TupSplit,loopcomp=LoopComp,enum=Enum,elif_=Elif,consts=Consts,singleexit=SingleExit,alias1=Alias1,kwdict=KwDict)
ALL.update(N)

WORK=os.environ.get('WORK','/tmp/refactor')
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__=='__main__':
    os.makedirs(WORK,exist_ok=True)
    names=sys.argv[1:] or list(ALL)
    for n in names: make(n,f'{WORK}/{n}')
    with Pool(int(os.environ.get('J','6'))) as p:
        for name,prop,rc,out in p.imap_unordered(one,[(n,q) for n in names for q in PROPS]):
            if rc: print('=====',name,prop,rc); print(out[-1200:] if rc!=1 else '\n'.join(x for x in out.splitlines() if not x.startswith('    '))[:1500],flush=True)
    for n in names: shutil.rmtree(f'{WORK}/{n}',ignore_errors=True)
    print('done')
