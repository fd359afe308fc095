import ast,glob,os,random,json,sys
random.seed(int(sys.argv[1]))
N=int(sys.argv[2])
out=[]
SK={"__init__.py","_decorator.py","_progress_bar.py"}
for f in sorted(glob.glob('/repo/otpod/*.py')):
    b=os.path.basename(f)
    if b in SK: continue
    src=open(f).read(); tree=ast.parse(src); lines=src.split('\n'); off=[0]
    for l in lines: off.append(off[-1]+len(l.encode())+1)
    bs=src.encode()
    def span(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    def seg(n): a,c=span(n); return bs[a:c].decode()
    def put(n,new,kind):
        a,c=span(n); out.append(dict(file=b,a=a,c=c,new=new,old=bs[a:c].decode(),line=n.lineno,kind=kind))
    def walk(n,fn,names):
        if isinstance(n,ast.FunctionDef):
            names=sorted({x.id for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}|{x.arg for x in n.args.args}-{"self"})
            fn=n
            body=n.body[1:] if ast.get_docstring(n) else n.body
            for d in n.args.defaults: walk(d,fn,names)
            for s in body: walk(s,fn,names)
            return
        if isinstance(n,ast.Raise): return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and isinstance(n.value.func,ast.Name) and n.value.func.id in("print","updateProgress"): return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): return
        if fn is not None:
            if isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign)) and not (isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name)):
                put(n,"pass","drop")
            if isinstance(n,ast.Compare) and len(n.ops)==1:
                o=n.ops[0]; m={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"==",ast.Is:"is not",ast.IsNot:"is",ast.In:"not in",ast.NotIn:"in"}[type(o)]
                put(n,"%s %s %s"%(seg(n.left),m,seg(n.comparators[0])),"cmp")
            if isinstance(n,ast.BinOp):
                m={ast.Add:"-",ast.Sub:"+",ast.Mult:"/",ast.Div:"*"}.get(type(n.op))
                if m and not any(isinstance(x,ast.Constant) and isinstance(x.value,str) for x in ast.walk(n)): put(n,"(%s) %s (%s)"%(seg(n.left),m,seg(n.right)),"arith")
            if isinstance(n,ast.BoolOp):
                put(n,(" or " if isinstance(n.op,ast.And) else " and ").join("(%s)"%seg(v) for v in n.values),"bool")
            if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): put(n,seg(n.operand),"not")
            if isinstance(n,ast.Constant):
                v=n.value
                if v is True: put(n,"False","const")
                elif v is False: put(n,"True","const")
                elif isinstance(v,int): put(n,str(v+1),"const"); 
                elif isinstance(v,float): put(n,repr(v*1.2+ (0.1 if v==0 else 0)),"const")
            if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load) and n.id in names and len(names)>1:
                put(n,random.choice([x for x in names if x!=n.id]),"var")
            if isinstance(n,ast.Attribute) and isinstance(n.value,ast.Name) and n.value.id=="self" and isinstance(n.ctx,ast.Load):
                at=sorted({x.attr for x in ast.walk(fn) if isinstance(x,ast.Attribute) and isinstance(x.value,ast.Name) and x.value.id=="self" and x.attr!=n.attr and not any(isinstance(c,ast.Call) and c.func is x for c in ast.walk(fn))})
                if at: put(n,"self."+random.choice(at),"attr")
            if isinstance(n,ast.If): put(n.test,"not (%s)"%seg(n.test),"if")
        for c in ast.iter_child_nodes(n): walk(c,fn,names)
    walk(tree,None,[])
w={"const":1,"drop":2,"cmp":2,"arith":2,"bool":2,"not":1,"var":.6,"attr":.8,"if":.6}
bykind={}
random.shuffle(out)
out.sort(key=lambda m:-random.random()**(1/w[m["kind"]]))
json.dump(out[:N],open('/tmp/amut/list.json','w'))
print(len(out))
