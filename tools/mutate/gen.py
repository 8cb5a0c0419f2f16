import ast, sys, json, re
SRC='/repo/src/bare_script/'
FILES=['data.py','library.py','model.py','options.py','parser.py','runtime.py','value.py']
out=[]
CMP={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.Is:'is not',ast.IsNot:'is',ast.In:'not in',ast.NotIn:'in'}
for f in FILES:
    text=open(SRC+f).read(); lines=text.split('\n'); tree=ast.parse(text)
    offs=[0]
    for l in lines: offs.append(offs[-1]+len(l.encode())+1)
    btext=text.encode()
    def pos(n): return offs[n.lineno-1]+n.col_offset
    def end(n): return offs[n.end_lineno-1]+n.end_col_offset
    def seg(n): return btext[pos(n):end(n)].decode()
    def add(kind,s,e,new,n):
        old=btext[s:e].decode()
        if old!=new: out.append({'file':f,'s':s,'e':e,'new':new,'old':old,'kind':kind,'line':n.lineno})
    docs=set(); ann=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.Module,ast.FunctionDef,ast.ClassDef)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant):
            docs.add(n.body[0].value); 
    fn_of={}
    for n in ast.walk(tree):
        if isinstance(n,ast.FunctionDef):
            for m in ast.walk(n): fn_of[m]=n.name
    inre=set(); fstr=set(); schema=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.JoinedStr):
            for m in ast.walk(n): fstr.add(m)
        if isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in('parse_schema_markdown','BareScriptParserError','BareScriptRuntimeError','ValueError','TypeError'):
            for m in ast.walk(n): 
                if isinstance(m,ast.Constant) and isinstance(m.value,str): schema.add(m)
    for n in ast.walk(tree):
        if n in fstr: continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            o=CMP.get(type(n.ops[0]))
            l,r=n.left,n.comparators[0]
            if o: add('cmp',end(l),pos(r),f' {o} ',n) if '(' not in btext[end(l):pos(r)].decode() else None
            if isinstance(n.ops[0],(ast.Lt,ast.LtE)) : add('cmp2',end(l),pos(r),' > ' ,n)
        if isinstance(n,ast.BoolOp):
            new='or' if isinstance(n.op,ast.And) else 'and'
            for i in range(len(n.values)):
                rest=[v for j,v in enumerate(n.values) if j!=i]
                j=' and ' if isinstance(n.op,ast.And) else ' or '
                add('dropop',pos(n),end(n),j.join('('+seg(v)+')' for v in rest),n)
            add('boolop',pos(n),end(n),f' {new} '.join('('+seg(v)+')' for v in n.values),n)
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): add('not',pos(n),end(n),seg(n.operand),n)
        if isinstance(n,ast.BinOp):
            m={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.FloorDiv:'/',ast.Div:'//',ast.Mod:'/'}.get(type(n.op))
            if m and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)):
                add('binop',pos(n),end(n),f'({seg(n.left)}) {m} ({seg(n.right)})',n)
        if isinstance(n,ast.Constant) and n not in docs and n not in schema:
            v=n.value
            if v is True: add('const',pos(n),end(n),'False',n)
            elif v is False: add('const',pos(n),end(n),'True',n)
            elif v is None: pass
            elif isinstance(v,(int,float)):
                add('const',pos(n),end(n),repr(v+1),n); add('const',pos(n),end(n),'('+repr(v-1)+')',n)
            elif isinstance(v,str):
                s=seg(n)
                if s.startswith(("r'",'r"')):
                    body=s[2:-1]
                    # drop regex atoms/quantifiers
                    for m in re.finditer(r'\\s[*+]|(?<!\()[?*+]|\\.|\[\^?|\\Z|\$|\^|\|[^|()\[\]]+|\{[^}]*\}|[-+!<>=&%/,:A-Za-z_]',body):
                        add('re-drop',pos(n),end(n),s[:2]+body[:m.start()]+body[m.end():]+s[-1],n)
                    for m in re.finditer(r'[*+]',body):
                        c={'*':'+','+':'*'}[m[0]]
                        add('re-q',pos(n),end(n),s[:2]+body[:m.start()]+c+body[m.end():]+s[-1],n)
                elif len(v)<=24 and not s.startswith("'''"):
                    if v: add('str',pos(n),end(n),"''",n)
                    else: add('str',pos(n),end(n),"'X'",n)
        if isinstance(n,(ast.If,ast.While,ast.IfExp)):
            t=n.test
            add('cond',pos(t),end(t),'True',n) if not isinstance(n,ast.While) else None; add('cond',pos(t),end(t),'False',n)
        if isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Raise,ast.Delete,ast.Continue,ast.Break)) and n in fn_of:
            if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): continue
            add('del',pos(n),end(n),'pass',n)
        if isinstance(n,ast.Return) and n.value is not None and not(isinstance(n.value,ast.Constant) and n.value.value is None): add('retnone',pos(n),end(n),'return None',n)
        if isinstance(n,ast.Call):
            if isinstance(n.func,ast.Name) and n.func.id in('int','list','dict','sorted','float','value_string','value_boolean','value_normalize_datetime','_value_key','_float_string','abs','str','tuple','reversed','set') and len(n.args)==1 and not isinstance(n.args[0],ast.GeneratorExp):
                add('unwrap',pos(n),end(n),'('+seg(n.args[0])+')',n)
            if isinstance(n.func,ast.Attribute) and n.func.attr in('strip','rstrip','copy','lower','astimezone','replace','lstrip') :
                add('unmeth',pos(n),end(n),'('+seg(n.func.value)+')',n)
            if isinstance(n.func,ast.Name) and n.func.id in('min','max') and len(n.args)==2:
                add('minmax',pos(n.func),end(n.func),{'min':'max','max':'min'}[n.func.id],n)
                for a in n.args: add('minmax',pos(n),end(n),'('+seg(a)+')',n)
            if len(n.args)>=2:
                for i,a in enumerate(n.args[:-1]):
                    b=n.args[i+1]
                    add('swap',pos(a),end(b),seg(b)+btext[end(a):pos(b)].decode()+seg(a),n)
            if len(n.args)>=2: add('dropkw',end(n.args[-2]),end(n.args[-1]),'',n)
            for k in n.keywords:
                s0=btext.rfind(b',',0,pos(k)); 
                if n.args or len(n.keywords)>1:
                    if s0>pos(n): add('dropkw',s0,end(k),'',n)
        if isinstance(n,ast.Slice):
            for b in (n.lower,n.upper):
                if b is not None: add('slice',pos(b),end(b),'',n)
        if isinstance(n,(ast.Set,ast.List,ast.Tuple)) and len(n.elts)>=2 and isinstance(getattr(n,'ctx',ast.Load()),ast.Load):
            br={ast.Set:'{}',ast.List:'[]',ast.Tuple:'()'}[type(n)]
            if len(n.elts)<40:
                for i in range(len(n.elts)):
                    rest=[seg(e) for j,e in enumerate(n.elts) if j!=i]
                    add('elt',pos(n),end(n),br[0]+', '.join(rest)+(',' if br=='()' else '')+br[1],n)
        if isinstance(n,ast.Dict) and len(n.keys)>=2 and all(k is not None for k in n.keys) and len(n.keys)<20:
            for i in range(len(n.keys)):
                rest=[seg(k)+': '+seg(v) for j,(k,v) in enumerate(zip(n.keys,n.values)) if j!=i]
                add('key',pos(n),end(n),'{'+', '.join(rest)+'}',n)
        if isinstance(n,ast.ExceptHandler):
            t=n.type
            if t is None: add('exc',offs[n.lineno-1]+n.col_offset,offs[n.lineno-1]+n.col_offset+6,'except ValueError',n)
            else: add('exc',pos(t),end(t),'ValueError' if seg(t)!='ValueError' else 'KeyError',n)
            for st in n.body: pass
        if isinstance(n,ast.Try) and n.finalbody:
            for st in n.finalbody: add('fin',pos(st),end(st),'pass',n)
seen=set(); res=[]
for m in out:
    k=(m['file'],m['s'],m['e'],m['new'])
    if k in seen: continue
    seen.add(k)
    b=open(SRC+m['file'],'rb').read(); nb=b[:m['s']]+m['new'].encode()+b[m['e']:]
    try: ast.parse(nb)
    except Exception: continue
    m['id']=len(res); res.append(m)
json.dump(res,open('/tmp/mut/muts.json','w'))
import collections
print(len(res),collections.Counter(m['kind'] for m in res),collections.Counter(m['file'] for m in res))
