"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the harnesses."""
import re, subprocess, struct
from fractions import Fraction

class IRError(Exception): pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__=('k','n','elems','name','_size','_align','_offs')
    def __init__(s,k,n=0,elems=None,name=None):
        s.k=k; s.n=n; s.elems=elems; s.name=name; s._size=None; s._align=None; s._offs=None
    def __repr__(s):
        return {'int':'i%d'%s.n,'arr':'[%s x %r]'%(s.n,s.elems),'struct':'{%s}'%(s.name or s.elems)}.get(s.k,s.k)

VOID=Ty('void'); PTR=Ty('ptr'); DBL=Ty('double'); FLT=Ty('float'); LABEL=Ty('label'); META=Ty('metadata'); X86FP80=Ty('x86_fp80')
_ints={}
def INT(n):
    if n not in _ints: _ints[n]=Ty('int',n)
    return _ints[n]

class Module:
    def __init__(m):
        m.types={}; m.funcs={}; m.globals={}; m.decls=set(); m.aliases={}; m.demangled={}
    def size(m,t):
        if t._size is None: m._layout(t)
        return t._size
    def align(m,t):
        if t._align is None: m._layout(t)
        return t._align
    def offsets(m,t):
        if t._size is None: m._layout(t)
        return t._offs
    def resolve(m,t):
        if t.k=='named':
            r=m.types.get(t.name)
            if r is None: raise IRError('opaque type '+t.name)
            return r
        return t
    def _layout(m,t):
        k=t.k
        if k=='named':
            r=m.resolve(t); m.size(r); t._size=r._size; t._align=r._align; t._offs=r._offs; return
        if k=='int':
            b=1
            while b*8<t.n: b*=2
            t._size=b; t._align=min(b,16)
        elif k=='ptr': t._size=8; t._align=8
        elif k=='double': t._size=8; t._align=8
        elif k=='float': t._size=4; t._align=4
        elif k=='x86_fp80': t._size=16; t._align=16
        elif k=='arr':
            t._size=t.n*m.size(t.elems); t._align=m.align(t.elems)
        elif k=='vec':
            t._size=t.n*m.size(t.elems); t._align=t._size
        elif k=='struct':
            off=0; al=1; offs=[]
            for e in t.elems:
                a=1 if t.n else m.align(e)
                off=(off+a-1)//a*a; offs.append(off); off+=m.size(e); al=max(al,a)
            t._size=(off+al-1)//al*al; t._align=al; t._offs=offs
        else: raise IRError('size of '+k)

# ---------------------------------------------------------------- tokenizer
TOK=re.compile(r'''\s+|;[^\n]*|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:"[^"]*"|[-\w$.]+))|(?P<glob>@(?:"[^"]*"|[-\w$.]+))|(?P<md>![\w.]*)|(?P<attr>\#\d+)|(?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|(?P<id>[A-Za-z_$][\w$.]*)|(?P<p>\.\.\.|[()\[\]{}<>,=*|:])''')

def tokenize(s):
    out=[];pos=0;n=len(s)
    while pos<n:
        mt=TOK.match(s,pos)
        if not mt: raise IRError('tok: '+s[pos:pos+60])
        pos=mt.end()
        if mt.lastgroup: out.append(mt.group())
    return out

PARAM_ATTRS={'noundef','nonnull','signext','zeroext','inreg','nocapture','noalias','writeonly','readonly','readnone','immarg','returned','nofree','nest','swiftself','noreturn','nounwind','inalloca','writable','dead_on_unwind','allocptr','allocalign'}
PAREN_ATTRS={'dereferenceable','dereferenceable_or_null','sret','byval','elementtype','align','allocsize','memory','byref','preallocated','range','initializes','captures'}
CCS={'fastcc','ccc','coldcc','tail','musttail','notail','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','dso_local','noundef','unnamed_addr','local_unnamed_addr'}
LINK={'linkonce_odr','internal','private','weak_odr','weak','external','common','available_externally','appending','extern_weak','linkonce','hidden','protected','default','dso_local','dso_preemptable','unnamed_addr','local_unnamed_addr','dllexport','dllimport','externally_initialized'}

class Line:
    def __init__(s,toks,mod): s.t=toks; s.i=0; s.m=mod
    def peek(s,k=0):
        j=s.i+k
        return s.t[j] if j<len(s.t) else None
    def next(s):
        x=s.t[s.i]; s.i+=1; return x
    def eat(s,x):
        if s.i<len(s.t) and s.t[s.i]==x: s.i+=1; return True
        return False
    def expect(s,x):
        if not s.eat(x): raise IRError('expected %r at %r in %r'%(x,s.t[s.i:s.i+5],' '.join(s.t)))
    def type(s):
        x=s.next()
        if x=='void': t=VOID
        elif x=='ptr':
            t=PTR
            if s.peek()=='addrspace': s.i+=4
        elif x=='double': t=DBL
        elif x=='float': t=FLT
        elif x=='x86_fp80': t=X86FP80
        elif x=='label': t=LABEL
        elif x=='metadata': t=META
        elif x=='token': t=META
        elif re.fullmatch(r'i\d+',x): t=INT(int(x[1:]))
        elif x=='[':
            n=int(s.next()); s.expect('x'); e=s.type(); s.expect(']'); t=Ty('arr',n,e)
        elif x=='{':
            es=[]
            while not s.eat('}'):
                es.append(s.type()); s.eat(',')
            t=Ty('struct',0,es)
        elif x=='<':
            if s.peek()=='{':
                s.next(); es=[]
                while not s.eat('}'):
                    es.append(s.type()); s.eat(',')
                s.expect('>'); t=Ty('struct',1,es)
            else:
                n=int(s.next()); s.expect('x'); e=s.type(); s.expect('>'); t=Ty('vec',n,e)
        elif x[0]=='%': t=Ty('named',0,None,x)
        elif x=='opaque': t=Ty('opaque')
        else: raise IRError('type? '+x+' in '+' '.join(s.t))
        while s.peek()=='*': s.next()
        if s.peek()=='(' :  # function type
            # only if it looks like a function type: used in calls
            save=s.i
            try:
                s.next(); ar=[]
                while not s.eat(')'):
                    if s.eat('...'): pass
                    else: ar.append(s.type())
                    s.eat(',')
                t=Ty('fn',0,ar); 
            except IRError:
                s.i=save
        return t
    def skip_attrs(s):
        r={}
        while True:
            x=s.peek()
            if x in PARAM_ATTRS: s.next()
            elif x in PAREN_ATTRS:
                s.next()
                if s.peek()=='(':
                    d=0; inner=[]
                    while True:
                        y=s.next()
                        if y=='(': d+=1
                        elif y==')': d-=1
                        inner.append(y)
                        if d==0: break
                    if x in('byval','sret'): r[x]=Line(inner[1:-1],s.m).type()
                else: s.next()  # align N
            elif x and x[0]=='"':
                s.next()
                if s.eat('='): s.next()
            elif x and x[0]=='#': s.next()
            else: return r
    def value(s,t):
        x=s.next()
        return s.value_from(x,t)
    def value_from(s,x,t):
        c=x[0]
        if c=='%': return ('r',x)
        if c=='@': return ('g',x)
        if x=='null': return ('c',None)
        if x in('undef','poison'): return ('u',t)
        if x=='true': return ('c',True)
        if x=='false': return ('c',False)
        if x=='zeroinitializer': return ('z',t)
        if x=='none': return ('c',None)
        if x in('getelementptr','bitcast','inttoptr','ptrtoint','sub','add','trunc','icmp','select'):
            if x=='getelementptr':
                while s.peek() in('inbounds','nuw','nusw'): s.next()
                s.expect('('); bt=s.type(); s.expect(','); ops=[]
                while not s.eat(')'):
                    while s.peek() in('inrange',): s.next()
                    ot=s.type(); ops.append((ot,s.value(ot))); s.eat(',')
                return ('gep',bt,ops)
            if x in('bitcast','inttoptr','ptrtoint','trunc'):
                s.expect('('); ft=s.type(); v=s.value(ft); s.expect('to'); tt=s.type(); s.expect(')')
                return ('cast',x,ft,v,tt)
            while s.peek() in('nuw','nsw','exact'): s.next()
            s.expect('('); at=s.type(); a=s.value(at); s.expect(','); bt=s.type(); b=s.value(bt); s.expect(')')
            return ('bin',x,at,a,b)
        if c=='c' and x.startswith('c"'): return ('s',unescape(x[2:-1]))
        if c=='[' or c=='{' or c=='<':
            close={'[':']','{':'}','<':'>'}[c]; packed=False
            if c=='<' and s.peek()=='{': s.next(); close='}'; packed=True
            es=[]
            while not s.eat(close):
                et=s.type(); es.append((et,s.value(et))); s.eat(',')
            if packed: s.expect('>')
            return ('agg',es)
        if re.fullmatch(r'-?\d+',x) and t.k=='int': return ('c',int(x)&((1<<t.n)-1)) if t.n>1 else ('c',bool(int(x)&1))
        if t.k in('double','float'):
            if x.startswith('0x'):
                return ('c',float_to_val(struct.unpack('>d',bytes.fromhex(x[2:].rjust(16,'0')))[0]))
            return ('c',float_to_val(float(x)))
        if t.k=='x86_fp80': return ('u',t)
        if t.k=='metadata' or c=='!': return ('md',)
        raise IRError('value? %s : %s in %s'%(x,t,' '.join(s.t)))

def float_to_val(f):
    if f!=f or f in(float('inf'),float('-inf')): return f
    return Fraction(f)

def unescape(s):
    out=bytearray();i=0
    while i<len(s):
        if s[i]=='\\': out.append(int(s[i+1:i+3],16)); i+=3
        else: out.append(ord(s[i])); i+=1
    return bytes(out)

class Func:
    __slots__=('name','args','ret','blocks','order','loops','attrs','dname','defs')
class Block:
    __slots__=('name','phis','ins','preds')

BINOPS={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CASTS={'zext','sext','trunc','bitcast','ptrtoint','inttoptr','uitofp','sitofp','fptoui','fptosi','fpext','fptrunc','addrspacecast'}

def parse_module(path):
    m=Module()
    text=open(path).read()
    lines=text.split('\n')
    i=0;n=len(lines)
    while i<n:
        ln=lines[i]
        if not ln or ln[0] in ';!' or ln.startswith(('source_filename','target','attributes','$','module asm','^')):
            i+=1; continue
        if ln[0]=='%':
            L=Line(tokenize(ln),m); nm=L.next(); L.expect('='); L.expect('type')
            m.types[nm]=L.type()
            i+=1; continue
        if ln[0]=='@':
            parse_global(m,ln); i+=1; continue
        if ln.startswith('declare'):
            g=re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(',ln)
            m.decls.add(g.group(1)); i+=1; continue
        if ln.startswith('define'):
            j=i+1
            while lines[j]!='}': j+=1
            parse_func(m,ln,lines[i+1:j]); i=j+1; continue
        i+=1
    names=[f for f in list(m.funcs)+sorted(m.decls)]
    r=subprocess.run(['llvm-cxxfilt-18'],input='\n'.join(x[1:].strip('"') for x in names),capture_output=True,text=True)
    for a,b in zip(names,r.stdout.split('\n')): m.demangled[a]=b
    for f in m.funcs.values(): f.dname=m.demangled[f.name]
    return m

def parse_global(m,ln):
    L=Line(tokenize(ln),m); nm=L.next(); L.expect('=')
    external=False; const=False
    while True:
        x=L.peek()
        if x in LINK:
            if L.next() in('external','extern_weak'): external=True
        elif x=='thread_local':
            L.next()
            if L.peek()=='(':
                L.i+=3
        elif x=='comdat': L.next()
        else: break
    x=L.next()
    if x=='alias':
        t=L.type(); L.expect(','); L.type(); m.aliases[nm]=L.next(); return
    if x not in('global','constant'): raise IRError('global '+ln[:100])
    t=L.type()
    init=None
    if L.peek() and L.peek()!=',' and not external: init=L.value(t)
    m.globals[nm]=(t,init,x=='constant')

HDR=re.compile(r'(@(?:"[^"]*"|[-\w$.]+))\(')
def parse_func(m,hdr,body):
    g=HDR.search(hdr); name=g.group(1)
    L=Line(tokenize(hdr[g.end():]),m)
    # args
    args=[];cnt=0
    while not L.eat(')'):
        if L.eat('...'): continue
        t=L.type(); at=L.skip_attrs()
        if L.peek() and L.peek()[0]=='%': nm=L.next()
        else: nm='%'+str(cnt)
        cnt+=1
        args.append((nm,t,at)); L.eat(',')
    R=Line(tokenize(hdr[:g.start()]),m); R.next()
    while R.peek() in LINK or R.peek() in CCS: R.next()
    R.skip_attrs(); rett=R.type()
    f=Func(); f.name=name; f.args=args; f.ret=rett; f.blocks=None; f.order=None; f.loops=None; f.dname=name; f.attrs=(cnt,body); f.defs=None
    m.funcs[name]=f

def ensure_blocks(m,f):
    if f.blocks is not None: return
    cnt,body=f.attrs
    f.blocks={}; f.order=[]
    # first unnamed block gets number cnt
    cur=None
    first=True
    buf=[]
    i=0
    # join multi-line instructions (switch, invoke, landingpad clauses)
    joined=[]
    for ln in body:
        s=ln.split(' ;',1)[0] if ' ; preds' in ln else ln
        if not s.strip(): continue
        if re.match(r'^[-\w$."]+:',s): joined.append(s); continue
        st=s.strip()
        if joined and (st.startswith(('to label','catch ','cleanup','filter ',']')) or (joined[-1].lstrip().startswith('switch') and ']' not in joined[-1])):
            joined[-1]+=' '+st
        else: joined.append(s)
    for s in joined:
        mt=re.match(r'^("[^"]*"|[-\w$.]+):',s)
        if mt:
            nm='%'+mt.group(1)
            cur=Block(); cur.name=nm; cur.phis=[]; cur.ins=[]; f.blocks[nm]=cur; f.order.append(nm); continue
        if cur is None:
            cur=Block(); cur.name='%'+str(cnt); cur.phis=[]; cur.ins=[]; f.blocks[cur.name]=cur; f.order.append(cur.name)
        ins=parse_ins(m,s)
        if ins is None: continue
        if ins[0]=='phi': cur.phis.append(ins)
        else: cur.ins.append(ins)

def strip_md(toks):
    # drop trailing ", !dbg !12" and attribute groups
    for k,x in enumerate(toks):
        if x==',' and k+1<len(toks) and toks[k+1][0]=='!': return toks[:k]
    return toks

def parse_ins(m,s):
    toks=strip_md(tokenize(s))
    L=Line(toks,m)
    res=None
    if toks[0][0]=='%' and toks[1]=='=':
        res=toks[0]; L.i=2
    op=L.next()
    if op in BINOPS:
        exact=False
        while L.peek() in('nuw','nsw','exact','disjoint','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'):
            L.next()
        t=L.type(); a=L.value(t); L.expect(','); b=L.value(t)
        return ('bin',res,op,t,a,b)
    if op=='fneg':
        while L.peek() in CCS: L.next()
        t=L.type(); return ('fneg',res,t,L.value(t))
    if op in('icmp','fcmp'):
        while L.peek() in CCS: L.next()
        p=L.next(); t=L.type(); a=L.value(t); L.expect(','); b=L.value(t)
        return (op,res,p,t,a,b)
    if op in CASTS:
        while L.peek() in('nneg','nuw','nsw'): L.next()
        t=L.type(); v=L.value(t); L.expect('to'); tt=L.type()
        return ('cast',res,op,t,v,tt)
    if op=='alloca':
        t=L.type(); cnt=('c',1); 
        if L.eat(','):
            if L.peek()!='align':
                ct=L.type(); cnt=L.value(ct)
        return ('alloca',res,t,cnt)
    if op=='load':
        while L.peek() in('volatile','atomic'): L.next()
        t=L.type(); L.expect(','); pt=L.type(); p=L.value(pt)
        return ('load',res,t,p)
    if op=='store':
        while L.peek() in('volatile','atomic'): L.next()
        t=L.type(); v=L.value(t); L.expect(','); pt=L.type(); p=L.value(pt)
        return ('store',t,v,p)
    if op=='getelementptr':
        while L.peek() in('inbounds','nuw','nusw'): L.next()
        bt=L.type(); L.expect(','); pt=L.type(); p=L.value(pt); idx=[]
        while L.eat(','):
            it=L.type(); idx.append((it,L.value(it)))
        return ('gep',res,bt,p,idx)
    if op=='br':
        t=L.type()
        if t is LABEL: return ('br',L.next())
        c=L.value(t); L.expect(','); L.type(); a=L.next(); L.expect(','); L.type(); b=L.next()
        return ('cbr',c,a,b)
    if op=='switch':
        t=L.type(); v=L.value(t); L.expect(','); L.type(); d=L.next(); L.expect('['); cs=[]
        while not L.eat(']'):
            ct=L.type(); cv=L.value(ct); L.expect(','); L.type(); cs.append((cv[1],L.next()))
        return ('switch',t,v,d,cs)
    if op=='ret':
        t=L.type()
        if t is VOID: return ('ret',None,None)
        return ('ret',t,L.value(t))
    if op in('call','invoke','tail','musttail','notail'):
        while op in('tail','musttail','notail'): op=L.next()
        while L.peek() in CCS: L.next()
        L.skip_attrs()
        # return type, maybe function type
        rt=None
        save=L.i
        rt=L.type()
        if rt.k=='fn':  # void (..) style: re-read
            L.i=save; rt=Line([L.t[save]],m).type() if L.t[save] not in '[{<' else rt
            # advance past the function type
            L.i=save
            rt=simple_type(L)
            d=0
            while True:
                y=L.next()
                if y=='(': d+=1
                if y==')':
                    d-=1
                    if d==0: break
        x=L.next()
        if x=='asm':
            return ('asm',res)
        callee=L.value_from(x,PTR)
        L.expect('('); args=[]
        while not L.eat(')'):
            t=L.type(); at=L.skip_attrs(); 
            if t is META:
                # skip metadata operand
                d=0
                while not (d==0 and L.peek() in(',',')')):
                    y=L.next()
                    if y=='(': d+=1
                    if y==')': d-=1
                args.append((t,('md',),at))
            else: args.append((t,L.value(t),at))
            L.eat(',')
        if op=='call': return ('call',res,rt,callee,args,None,None)
        while L.peek()!='to': L.next()
        L.next(); L.type(); n=L.next(); L.expect('unwind'); L.type(); u=L.next()
        return ('call',res,rt,callee,args,n,u)
    if op=='phi':
        while L.peek() in CCS: L.next()
        t=L.type(); inc={}
        while L.eat('['):
            v=L.value(t); L.expect(','); b=L.next(); L.expect(']'); L.eat(','); inc[b]=v
        return ('phi',res,t,inc)
    if op=='select':
        while L.peek() in CCS: L.next()
        ct=L.type(); c=L.value(ct); L.expect(','); t=L.type(); a=L.value(t); L.expect(','); L.type(); b=L.value(t)
        return ('select',res,c,t,a,b)
    if op=='extractvalue':
        t=L.type(); v=L.value(t); idx=[]
        while L.eat(','): idx.append(int(L.next()))
        return ('extractvalue',res,t,v,idx)
    if op=='insertvalue':
        t=L.type(); v=L.value(t); L.expect(','); et=L.type(); e=L.value(et); idx=[]
        while L.eat(','): idx.append(int(L.next()))
        return ('insertvalue',res,t,v,et,e,idx)
    if op=='unreachable': return ('unreachable',)
    if op=='landingpad': return ('landingpad',res)
    if op=='resume': return ('resume',)
    if op=='freeze':
        t=L.type(); return ('freeze',res,t,L.value(t))
    if op=='fence': return None
    if op=='atomicrmw':
        L.eat('volatile'); k=L.next(); pt=L.type(); p=L.value(pt); L.expect(','); t=L.type(); v=L.value(t)
        return ('atomicrmw',res,k,t,p,v)
    if op=='cmpxchg':
        L.eat('weak'); L.eat('volatile'); pt=L.type(); p=L.value(pt); L.expect(','); t=L.type(); a=L.value(t); L.expect(','); L.type(); b=L.value(t)
        return ('cmpxchg',res,t,p,a,b)
    return ('unsupported',s.strip())

def simple_type(L):
    x=L.peek()
    if x in('[','{','<'): 
        L2=Line(L.t,L.m); L2.i=L.i
        # parse without function suffix
        t=L2.type(); L.i=L2.i; return t
    L.next()
    return Line([x],L.m).type()

if __name__=='__main__':
    import sys,time
    t=time.time(); m=parse_module(sys.argv[1])
    for f in m.funcs.values(): ensure_blocks(m,f)
    bad=[i for f in m.funcs.values() for b in f.blocks.values() for i in b.ins if i[0]=='unsupported']
    print(len(m.funcs),len(m.globals),len(m.types),len(bad),bad[:5],time.time()-t)
