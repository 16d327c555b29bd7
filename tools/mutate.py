"""generate random mutants of lop: list of (file, description, new source)"""
import ast, random, sys, os
ROOT='/repo/src/lop'
CMP={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==' ,ast.Is:'is not',ast.IsNot:'is',ast.In:'not in',ast.NotIn:'in'}
BIN={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.Div:'*',ast.MatMult:None,ast.Pow:'*',ast.FloorDiv:'/'}
NAMES={'argmax':'argmin','argmin':'argmax','max':'min','min':'max','all':'any','any':'all','sum':'mean','mean':'sum','zeros':'ones','cos':'sin','sin':'cos','log':'log1p','maximum':'minimum','minimum':'maximum','append':None,'copy':None,'argsort':None,'sqrt':'abs'}
def mutants(path):
    src=open(path).read(); tree=ast.parse(src)
    lines=src.splitlines(keepends=True); off=[0]
    for l in lines: off.append(off[-1]+len(l.encode()))
    b=src.encode()
    def span(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    out=[]
    def rep(n,new,kind):
        s,e=span(n); out.append((kind,n.lineno,b[s:e].decode(),new,(b[:s]+new.encode()+b[e:]).decode()))
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.FunctionDef):
            if n.name in('visualize_hyperparameter','hyperparameter_obj','plot_preference','print_hyperparameters','__str__','plot') : 
                for k in ast.walk(n): skip.add(id(k))
        if isinstance(n,(ast.Expr,)) and isinstance(n.value,ast.Call) and getattr(n.value.func,'id','')=='print':
            for k in ast.walk(n): skip.add(id(k))
    infn=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.FunctionDef):
            for k in ast.walk(n): infn.add(id(k))
    seg=lambda n:b[span(n)[0]:span(n)[1]].decode()
    for n in ast.walk(tree):
        if id(n) in skip or id(n) not in infn: continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            o=CMP.get(type(n.ops[0]))
            if o: rep(n,'%s %s %s'%(seg(n.left),o,seg(n.comparators[0])),'cmp')
        elif isinstance(n,ast.BinOp):
            o=BIN.get(type(n.op))
            if o: rep(n,'(%s %s %s)'%(seg(n.left),o,seg(n.right)),'bin')
        elif isinstance(n,ast.BoolOp):
            rep(n,(' or ' if isinstance(n.op,ast.And) else ' and ').join('(%s)'%seg(v) for v in n.values),'bool')
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.Not,ast.USub)):
            rep(n,'(%s)'%seg(n.operand),'unary')
        elif isinstance(n,ast.Constant) and type(n.value) in(int,float):
            rep(n,repr(n.value+1) if type(n.value) is int else repr(n.value*1.3+ (0.1 if n.value==0 else 0)),'const')
        elif isinstance(n,ast.Constant) and type(n.value) is bool: rep(n,repr(not n.value),'boolc')
        elif isinstance(n,ast.If): 
            rep(n.test,'not (%s)'%seg(n.test),'ifneg')
        elif isinstance(n,ast.Attribute) and NAMES.get(n.attr):
            s,e=span(n); rep(n,seg(n)[:-len(n.attr)]+NAMES[n.attr],'name')
        elif isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr)):
            if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): continue
            if isinstance(n,ast.AugAssign): rep(n,'pass','dropstmt')
            elif isinstance(n,ast.Expr): rep(n,'pass','dropstmt')
            elif isinstance(n.targets[0],(ast.Attribute,ast.Subscript)): rep(n,'pass','dropstmt')
        elif isinstance(n,ast.Call) and len(n.args)==2 and not n.keywords:
            rep(n,'%s(%s, %s)'%(seg(n.func),seg(n.args[1]),seg(n.args[0])),'swapargs')
    return out
if __name__=='__main__':
    tot=0
    for d,_,fs in os.walk(ROOT):
        for f in sorted(fs):
            if f.endswith('.py') and f!='__init__.py':
                m=mutants(os.path.join(d,f)); tot+=len(m); print(f,len(m))
    print(tot)
