"""automut.py Cxx FILE[,FILE...] N SEED [check options]: run a check against N random one-token mutants of these files (development aid)."""
import ast,random,sys,subprocess,os,shutil,tempfile,re,json,difflib
SRC=os.environ.get('MUT_SRC','/repo')
SKIPF={'input_names','output_names','__repr__','plot_source','device_stream','print'}
def cands(src):
    t=ast.parse(src); L=src.split('\n'); out=[]
    off=[0]
    for l in L: off.append(off[-1]+len(l.encode())+1)
    b=src.encode()
    pos=lambda n:(off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset)
    seg=lambda n:b[slice(*pos(n))].decode()
    def rep(n,new,kind): out.append((pos(n),new,kind,n.lineno))
    def visit(n,fn):
        if isinstance(n,(ast.FunctionDef,)):
            if n.name in SKIPF: return
            for c in n.body: visit(c,n.name)
            return
        if isinstance(n,ast.Raise) or isinstance(n,ast.Assert): return
        if isinstance(n,ast.If) and ('verbose' in seg(n.test) or 'gpu' in seg(n.test).lower()): 
            return
        if isinstance(n,ast.Expr):
            if isinstance(n.value,ast.Constant): return
            s=seg(n)
            if s.startswith(('print','logg','self.print','warn','super','import')): return
            rep(n,'pass','del')
        if fn:
            if isinstance(n,ast.AugAssign): rep(n,'pass','del')
            if isinstance(n,ast.Assign):
                s=seg(n.targets[0])
                if isinstance(n.targets[0],ast.Attribute) and 'type' not in s and fn!='__init__': rep(n,'pass','del')
                if isinstance(n.targets[0],ast.Subscript) :
                    rep(n,'pass','del')
                    if re.search(r'\[(:|\.\.\.)\]$',s): rep(n.targets[0],re.sub(r'\[(:|\.\.\.)\]$','',s),'rebind')
            if isinstance(n,ast.Compare) and len(n.ops)==1:
                o=type(n.ops[0]); m={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.Is:'is not',ast.IsNot:'is',ast.In:'not in',ast.NotIn:'in'}
                rep(n,f'{seg(n.left)} {m[o]} {seg(n.comparators[0])}','cmp')
            if isinstance(n,ast.BinOp) and isinstance(n.op,(ast.Add,ast.Sub)) and not isinstance(n.left,ast.Constant):
                rep(n,f'{seg(n.left)} {"-" if isinstance(n.op,ast.Add) else "+"} {seg(n.right)}','arith')
            if isinstance(n,ast.BinOp) and isinstance(n.op,(ast.Mult,ast.Div,ast.FloorDiv)):
                rep(n,seg(n.left),'dropmul')
            if isinstance(n,ast.BoolOp):
                for k,v in enumerate(n.values): 
                    rest=[x for j,x in enumerate(n.values) if j!=k]
                    rep(n,(' and ' if isinstance(n.op,ast.And) else ' or ').join('('+seg(x)+')' for x in rest),'bool')
            if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): rep(n,seg(n.operand),'not')
            if isinstance(n,ast.Constant) and type(n.value) is int and abs(n.value)<10: rep(n,str(n.value+1),'const')
            if isinstance(n,ast.Constant) and type(n.value) is bool: rep(n,str(not n.value),'const')
            if isinstance(n,ast.If): rep(n.test,'True','cond'); rep(n.test,'False','cond')
            if isinstance(n,(ast.Continue,ast.Break)): rep(n,'pass','flow')
            if isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr=='copy' and not n.args: rep(n,seg(n.func.value),'nocopy')
        for c in ast.iter_child_nodes(n): visit(c,fn)
    visit(t,None)
    return b,out
def main(prop,files,n,seed,extra):
    R=random.Random(seed); pool=[]
    for f in files:
        src=open(f'{SRC}/{f}').read(); b,o=cands(src)
        for x in o: pool.append((f,b,x))
    done=0; seen=set()
    while done<n and pool:
        f,b,(p,new,kind,line)=R.choice(pool)
        if (f,p,new) in seen: continue
        seen.add((f,p,new))
        t=b[:p[0]]+new.encode()+b[p[1]:]
        try: ast.parse(t)
        except SyntaxError: continue
        done+=1
        d=tempfile.mkdtemp(prefix='mut.',dir='/tmp'); os.makedirs(d+'/repo')
        subprocess.run(['cp','-a',SRC+'/specula',d+'/repo/'])
        open(f'{d}/repo/{f}','wb').write(t)
        e=dict(os.environ,DST_REPO=d+'/repo',DST_OUT=d)
        try:
            r=subprocess.run(['/verif/check.sh',prop,'--no-shrink']+extra,env=e,capture_output=True,text=True,timeout=600); o=r.stdout+r.stderr; rc=r.returncode
        except subprocess.TimeoutExpired: o='TIMEOUT'; rc='T'
        shutil.rmtree(d)
        v=len(re.findall('VIOLATION',o)); m=re.search(r'(\d+) harness errors',o)
        st='KILLED' if v else ('HERR' if (m and m.group(1)!='0') or rc not in (0,1) else 'SURVIVED')
        old=b.decode().split('\n')[line-1].strip()
        df=[l for l in difflib.unified_diff(b.decode().split('\n'),t.decode().split('\n'),n=0,lineterm='') if l[:1] in '+-' and l[:3] not in ('---','+++')]
        print(f'{st} {prop} {f}:{line} {kind}', flush=True)
        if st!='KILLED': print('    '+'\n    '.join(x[:160] for x in df[:6]), '' if st=='SURVIVED' else o[-300:], flush=True)
if __name__=='__main__':
    main(sys.argv[1],sys.argv[2].split(','),int(sys.argv[3]),int(sys.argv[4]),sys.argv[5:])
