"""Hash-consed terms: integer polynomials over atoms (I), real expression DAGs (R), booleans (B).
Concrete integers are python ints, concrete reals are Fractions, concrete booleans are python bools."""
from fractions import Fraction
import random, z3

# ---------------------------------------------------------------- atoms (integer sort)
class Atom:
    __slots__=('id','kind','data','lo','hi','name')
ATOMS=[]; _atom_key={}
def atom(kind,data,lo=None,hi=None,name=None):
    k=(kind,data)
    a=_atom_key.get(k)
    if a is None:
        a=Atom(); a.id=len(ATOMS); a.kind=kind; a.data=data; a.lo=lo; a.hi=hi; a.name=name
        ATOMS.append(a); _atom_key[k]=a
    return a

class I:
    """integer polynomial; d: {monomial(tuple of atom ids, sorted): int coefficient}, hash-consed"""
    __slots__=('d','id','_rng')
    def __repr__(s):
        out=[]
        for m,c in sorted(s.d.items()):
            t='*'.join(aname(x) for x in m)
            out.append(('%d*%s'%(c,t) if c!=1 else t) if m else str(c))
        return '('+' + '.join(out)+')'
def aname(i):
    a=ATOMS[i]
    if a.name: return a.name
    return '%s%r'%(a.kind,a.data)
_ipool={}; _ilist=[]
def mkI(d):
    d={m:c for m,c in d.items() if c!=0}
    if not d: return 0
    if len(d)==1 and () in d: return d[()]
    k=frozenset(d.items())
    r=_ipool.get(k)
    if r is None:
        r=I(); r.d=d; r.id=len(_ilist); r._rng=0; _ipool[k]=r; _ilist.append(r)
    return r
def isym(name,lo=None,hi=None):
    a=atom('sym',(name,lo,hi),lo,hi,name)
    return mkI({(a.id,):1})
_fresh=[0]
def fresh_i(name,lo=None,hi=None):
    _fresh[0]+=1
    return isym('%s#%d'%(name,_fresh[0]),lo,hi)
def iatom(a): return mkI({(a.id,):1})
def idict(a): return a.d if type(a) is I else {():a}
def iadd(a,b):
    if type(a) is int:
        if type(b) is int: return a+b
        if a==0: return b
    elif type(b) is int and b==0: return a
    d=dict(idict(a))
    for m,c in idict(b).items(): d[m]=d.get(m,0)+c
    return mkI(d)
def ineg(a):
    if type(a) is int: return -a
    return mkI({m:-c for m,c in a.d.items()})
def isub(a,b):
    if type(a) is int and type(b) is int: return a-b
    if a is b: return 0
    d=dict(idict(a))
    for m,c in idict(b).items(): d[m]=d.get(m,0)-c
    return mkI(d)
def imul(a,b):
    if type(a) is int:
        if type(b) is int: return a*b
        if a==0: return 0
        if a==1: return b
        return mkI({m:a*c for m,c in b.d.items()})
    if type(b) is int: return imul(b,a)
    d={}
    for m,c in a.d.items():
        for m2,c2 in b.d.items():
            k=tuple(sorted(m+m2)); d[k]=d.get(k,0)+c*c2
    return mkI(d)
def isum(xs):
    r=0
    for x in xs: r=iadd(r,x)
    return r
def icontent(a):
    import math
    return math.gcd(*a.d.values()) if type(a) is I else abs(a)
def idiv_exact(a,k):
    """a/k if all coefficients are divisible by the constant k, else None"""
    if type(a) is int: return a//k if a%k==0 else None
    for c in a.d.values():
        if c%k: return None
    return mkI({m:c//k for m,c in a.d.items()})
def ibounds(a):
    """interval (lo,hi), None = unbounded"""
    if type(a) is int: return a,a
    if a._rng!=0: return a._rng
    lo=0;hi=0
    for m,c in a.d.items():
        l,h=1,1
        for x in m:
            al,ah=ATOMS[x].lo,ATOMS[x].hi
            if al is None or al<0 or l is None: l=None; h=None; break
            l=l*al; h=None if (h is None or ah is None) else h*ah
        if l is None and len(m)==1: l,h=ATOMS[m[0]].lo,ATOMS[m[0]].hi
        if c>=0: tl=None if l is None else l*c; th=None if h is None else h*c
        else: tl=None if h is None else h*c; th=None if l is None else l*c
        lo=None if lo is None or tl is None else lo+tl
        hi=None if hi is None or th is None else hi+th
    a._rng=(lo,hi)
    return a._rng

# ---------------------------------------------------------------- reals
class R:
    __slots__=('op','a','b','id','_p','_z')
    def __repr__(s): return rstr(s)
_rpool={}; RL=[]
def mkR(op,a,b=None):
    k=(op,a,b)
    r=_rpool.get(k)
    if r is None:
        r=R(); r.op=op; r.a=a; r.b=b; r.id=len(RL); r._p=None; r._z=None
        _rpool[k]=r; RL.append(r)
    return r
def rconst(f): return mkR('c',Fraction(f))
def asR(x): return x if type(x) is R else mkR('c',Fraction(x))
def rsym(name): return mkR('sym',name)
def fresh_r(name):
    _fresh[0]+=1
    return rsym('%s#%d'%(name,_fresh[0]))
def ruf(name,args): return mkR('uf',name,tuple(args))
def r_of_int(i):
    if type(i) is int: return Fraction(i)
    return mkR('i2r',i)
def rstr(r,depth=6):
    if type(r) is not R: return str(r)
    if depth==0: return '..'
    if r.op=='c': return str(r.a)
    if r.op=='sym': return r.a
    if r.op=='uf': return '%s[%s]'%(r.a,','.join(map(repr,r.b)))
    if r.op=='i2r': return 'real%r'%(r.a,)
    return '(%s %s %s)'%(rstr(r.a,depth-1),r.op,rstr(r.b,depth-1))
def isc(x): return type(x) is Fraction
def radd(a,b):
    ca=type(a) is Fraction; cb=type(b) is Fraction
    if ca and cb: return a+b
    if ca and a==0: return b
    if cb and b==0: return a
    a=asR(a); b=asR(b)
    if a.op=='i2r' and b.op=='i2r': return r_of_int(iadd(a.a,b.a))
    if a.op=='c' and a.a.denominator==1 and b.op=='i2r': return r_of_int(iadd(int(a.a),b.a))
    if b.op=='c' and b.a.denominator==1 and a.op=='i2r': return r_of_int(iadd(a.a,int(b.a)))
    if a.id>b.id: a,b=b,a
    return mkR('+',a,b)
def rneg(a):
    if type(a) is Fraction: return -a
    return rmul(Fraction(-1),a)
def rsub(a,b):
    if type(a) is Fraction and type(b) is Fraction: return a-b
    if a is b: return Fraction(0)
    return radd(a,rneg(b))
def rmul(a,b):
    ca=type(a) is Fraction; cb=type(b) is Fraction
    if ca and cb: return a*b
    if (ca and a==0) or (cb and b==0): return Fraction(0)
    if ca and a==1: return b
    if cb and b==1: return a
    a=asR(a); b=asR(b)
    if a.op=='c' and b.op=='*' and b.a.op=='c': return rmul(a.a*b.a.a,b.b)
    if b.op=='c' and a.op=='*' and a.a.op=='c': return rmul(b.a*a.a.a,a.b)
    if b.op=='c': a,b=b,a
    elif a.op!='c' and a.id>b.id: a,b=b,a
    if a.op=='c' and b.op=='i2r' and a.a.denominator==1: return r_of_int(imul(int(a.a),b.a))
    return mkR('*',a,b)
def rdiv(a,b):
    if type(b) is Fraction:
        return rmul(1/b,a)
    if type(a) is Fraction and a==0: return Fraction(0)
    if a is b: return Fraction(1)
    return mkR('/',asR(a),b)
def rsum(xs):
    r=Fraction(0)
    for x in xs: r=radd(r,x)
    return r

# ---------------------------------------------------------------- booleans
class B:
    __slots__=('op','a','b','id','_z')
    def __repr__(s): return '%s(%r%s)'%(s.op,s.a,'' if s.b is None else ', %r'%(s.b,))
_bpool={}; BL=[]
def mkB(op,a,b=None):
    k=(op,a,b)
    r=_bpool.get(k)
    if r is None:
        r=B(); r.op=op; r.a=a; r.b=b; r.id=len(BL); r._z=None; _bpool[k]=r; BL.append(r)
    return r
def bsym(name): return mkB('sym',name)
def ige(a,b=0):
    x=isub(a,b)
    if type(x) is int: return x>=0
    lo,hi=ibounds(x)
    if lo is not None and lo>=0: return True
    if hi is not None and hi<0: return False
    return mkB('ige',x)
def igt(a,b): return ige(a,iadd(b,1))
def ile(a,b): return ige(b,a)
def ilt(a,b): return ige(b,iadd(a,1))
def ieq(a,b=0):
    x=isub(a,b)
    if type(x) is int: return x==0
    lo,hi=ibounds(x)
    if lo is not None and lo>0: return False
    if hi is not None and hi<0: return False
    g=icontent_nc(x)
    if g>1 and x.d.get((),0)%g: return False
    # normalise sign
    k=min(m for m in x.d if m)
    if x.d[k]<0: x=ineg(x)
    return mkB('ieq',x)
def icontent_nc(x):
    import math
    g=0
    for m,c in x.d.items():
        if m: g=math.gcd(g,c)
    return g
def ine(a,b): return bnot(ieq(a,b))
def bnot(b):
    if type(b) is bool: return not b
    if b.op=='not': return b.a
    if b.op=='ige': return ige(isub(-1,b.a))
    if b.op=='rle': return mkB('rlt',b.b,b.a)
    if b.op=='rlt': return mkB('rle',b.b,b.a)
    return mkB('not',b)
def band(*bs):
    r=True
    for b in bs:
        if b is False: return False
        if b is True: continue
        r=b if r is True else mkB('and',r,b)
    return r
def bor(*bs):
    r=False
    for b in bs:
        if b is True: return True
        if b is False: continue
        r=b if r is False else mkB('or',r,b)
    return r
def bimp(a,b): return bor(bnot(a),b)
def rlt(a,b):
    if type(a) is Fraction and type(b) is Fraction: return a<b
    if a is b: return False
    return mkB('rlt',asR(a),asR(b))
def rle(a,b):
    if type(a) is Fraction and type(b) is Fraction: return a<=b
    if a is b: return True
    return mkB('rle',asR(a),asR(b))
def req(a,b):
    if type(a) is Fraction and type(b) is Fraction: return a==b
    if a is b: return True
    a=asR(a);b=asR(b)
    if a.id>b.id: a,b=b,a
    return mkB('req',a,b)
def rne(a,b): return bnot(req(a,b))

# ---------------------------------------------------------------- integer division helpers
def idivmod_syn(a,b):
    """split polynomial a = q*b + r syntactically (b atom/monomial/int); returns (q,r)"""
    if type(b) is int:
        if b<=0: return None
        if type(a) is int: return a//b,a%b
        q={};r={}
        for m,c in a.d.items():
            if m==():
                q[m]=c//b; r[m]=c%b
            else:
                qq=c//b; rr=c-qq*b
                if qq: q[m]=qq
                if rr: r[m]=rr
        return mkI(q),mkI(r)
    if len(b.d)!=1: 
        return None
    (bm,bc),=b.d.items()
    if bc!=1: return None
    q={};r={}
    for m,c in idict(a).items():
        mm=list(m); ok=True
        for x in bm:
            if x in mm: mm.remove(x)
            else: ok=False;break
        if ok: q[tuple(mm)]=c
        else: r[m]=c
    return mkI(q),mkI(r)
def adiv(a,b):
    at=atom('div',(a,b),0,ibounds(a)[1])
    return iatom(at)
def amod(a,b):
    hb=ibounds(b)[1]
    at=atom('mod',(a,b),0,None if hb is None else hb-1)
    return iatom(at)
def aceil(r,lo=None,hi=None): return iatom(atom('ceil',r,lo,hi))
def afloor(r,lo=None,hi=None): return iatom(atom('floor',r,lo,hi))
def iuf(name,args,lo=None,hi=None): return iatom(atom('uf',(name,tuple(args)),lo,hi))

# ---------------------------------------------------------------- substitution
def subst_i(t,sub,memo=None):
    """sub: {atom id: I/int}"""
    if type(t) is int: return t
    if memo is None: memo={}
    k=('i',t.id)
    if k in memo: return memo[k]
    r=0
    for m,c in t.d.items():
        x=c
        for a in m:
            if a in sub: y=sub[a]
            else:
                at=ATOMS[a]
                y=mkI({(a,):1})
                if at.kind in('div','mod'):
                    p,q=subst_i(at.data[0],sub,memo),subst_i(at.data[1],sub,memo)
                    if (p,q)!=at.data:
                        if type(p) is int and type(q) is int: y=p//q if at.kind=='div' else p%q
                        else: y=adiv(p,q) if at.kind=='div' else amod(p,q)
                elif at.kind in('ceil','floor'):
                    p=subst_r(at.data,sub,memo)
                    if p is not at.data:
                        if isc(p):
                            import math
                            y=math.ceil(p) if at.kind=='ceil' else math.floor(p)
                        else: y=iatom(atom(at.kind,p))
                elif at.kind=='uf':
                    na=tuple(subst_i(z,sub,memo) for z in at.data[1])
                    if na!=at.data[1]: y=iuf(at.data[0],na,at.lo,at.hi)
            x=imul(x,y)
        r=iadd(r,x)
    memo[k]=r
    return r
def subst_r(t,sub,memo=None,rsub_=None):
    if type(t) is Fraction: return t
    if memo is None: memo={}
    k=('r',t.id)
    if k in memo: return memo[k]
    op=t.op
    if rsub_ and t.id in rsub_: r=rsub_[t.id]
    elif op=='c': r=t.a
    elif op=='sym': r=t
    elif op=='uf':
        na=tuple(subst_i(z,sub,memo) for z in t.b)
        r=t if na==t.b else ruf(t.a,na)
    elif op=='i2r': r=r_of_int(subst_i(t.a,sub,memo))
    else:
        a=subst_r(t.a,sub,memo,rsub_); b=subst_r(t.b,sub,memo,rsub_)
        r={'+':radd,'*':rmul,'/':rdiv}[op](a,b)
    memo[k]=r
    return r
def subst_b(t,sub,memo=None):
    if type(t) is bool: return t
    if memo is None: memo={}
    op=t.op
    if op=='ige': return ige(subst_i(t.a,sub,memo))
    if op=='ieq': return ieq(subst_i(t.a,sub,memo))
    if op in('rlt','rle','req'):
        return {'rlt':rlt,'rle':rle,'req':req}[op](unR(subst_r(t.a,sub,memo)),unR(subst_r(t.b,sub,memo)))
    if op=='not': return bnot(subst_b(t.a,sub,memo))
    if op=='and': return band(subst_b(t.a,sub,memo),subst_b(t.b,sub,memo))
    if op=='or': return bor(subst_b(t.a,sub,memo),subst_b(t.b,sub,memo))
    return t
def unR(x):
    if type(x) is R and x.op=='c': return x.a
    return x
def atoms_i(t,out=None):
    if out is None: out=set()
    if type(t) is I:
        for m in t.d:
            for a in m:
                if a not in out:
                    out.add(a); at=ATOMS[a]
                    if at.kind in('div','mod'): atoms_i(at.data[0],out); atoms_i(at.data[1],out)
                    elif at.kind in('ceil','floor'): atoms_r(at.data,out)
                    elif at.kind=='uf':
                        for z in at.data[1]: atoms_i(z,out)
    return out
def atoms_r(t,out=None,seen=None):
    if out is None: out=set()
    if seen is None: seen=set()
    st=[t]
    while st:
        x=st.pop()
        if type(x) is not R or x.id in seen: continue
        seen.add(x.id)
        if x.op=='uf':
            for z in x.b: atoms_i(z,out)
        elif x.op=='i2r': atoms_i(x.a,out)
        elif x.op in('+','*','/'): st.append(x.a); st.append(x.b)
    return out
def rleaves(t):
    """real leaves (sym / uf / i2r nodes) of a term"""
    out={};seen=set();st=[t]
    while st:
        x=st.pop()
        if type(x) is not R or x.id in seen: continue
        seen.add(x.id)
        if x.op in('sym','uf','i2r'): out[x.id]=x
        elif x.op in('+','*','/'): st.append(x.a); st.append(x.b)
    return out

# ---------------------------------------------------------------- equality of reals
PRIME=(1<<127)-1
def pit_eval(t,val,memo):
    """evaluate over GF(PRIME); val: function from leaf node to int"""
    if type(t) is Fraction: return t.numerator%PRIME*pow(t.denominator,-1,PRIME)%PRIME
    st=[t]
    while st:
        x=st[-1]
        if x.id in memo: st.pop(); continue
        op=x.op
        if op=='c': memo[x.id]=x.a.numerator%PRIME*pow(x.a.denominator,-1,PRIME)%PRIME; st.pop()
        elif op in('sym','uf','i2r'): memo[x.id]=val(x); st.pop()
        else:
            a,b=x.a,x.b
            ok=True
            if a.id not in memo: st.append(a); ok=False
            if b.id not in memo: st.append(b); ok=False
            if ok:
                u,v=memo[a.id],memo[b.id]
                if op=='+': w=(u+v)%PRIME
                elif op=='*': w=u*v%PRIME
                else:
                    if v==0: raise ZeroDivisionError
                    w=u*pow(v,-1,PRIME)%PRIME
                memo[x.id]=w; st.pop()
    return memo[t.id]
def ival_mod(t,val,amemo):
    """value of an integer polynomial with random atom values"""
    if type(t) is int: return t%PRIME
    s=0
    for m,c in t.d.items():
        x=c
        for a in m:
            if a not in amemo: amemo[a]=val()
            x=x*amemo[a]%PRIME
        s+=x
    return s%PRIME
def pit_equal(a,b,rounds=2,rng=random.Random(12345)):
    """polynomial identity test of two rational expressions; leaves with distinct integer index terms are
    independent unknowns. One-sided: False is certain (as formal expressions); True errs with prob < deg/2^127 per round."""
    if a is b: return True
    good=0
    for _ in range(rounds+2):
        lv={};am={}
        def val(x):
            if x.op=='i2r': return ival_mod(x.a,lambda: rng.randrange(PRIME),am)
            v=lv.get(x.id)
            if v is None: v=lv[x.id]=rng.randrange(PRIME)
            return v
        memo={}
        try:
            if pit_eval(asR(a),val,memo)!=pit_eval(asR(b),val,memo): return False
            good+=1
            if good==rounds: return True
        except ZeroDivisionError: pass
    return False        # a divisor is identically zero

class TooBig(Exception): pass
# polynomials over real leaves for the exact check: {monomial (sorted tuple of leaf ids): Fraction}
def p_add(a,b):
    d=dict(a)
    for m,c in b.items():
        s=d.get(m,0)+c
        if s: d[m]=s
        else: d.pop(m,None)
    return d
def p_mul(a,b,limit):
    if len(a)*len(b)>limit*20: raise TooBig()
    d={}
    for m,c in a.items():
        for m2,c2 in b.items():
            k=tuple(sorted(m+m2)) if m and m2 else (m or m2)
            s=d.get(k,0)+c*c2
            if s: d[k]=s
            else: d.pop(k,None)
    if len(d)>limit: raise TooBig()
    return d
def ratfun(t,memo,dens,limit):
    """t -> (num poly, {den key: power}); dens: key -> poly"""
    if type(t) is Fraction: return ({():t} if t else {}),{}
    st=[t]
    while st:
        x=st[-1]
        if x.id in memo: st.pop(); continue
        op=x.op
        if op=='c': memo[x.id]=(({():x.a} if x.a else {}),{}); st.pop(); continue
        if op in('sym','uf'): memo[x.id]=({(x.id,):Fraction(1)},{}); st.pop(); continue
        if op=='i2r':
            d={}
            for m,c in x.a.d.items():
                k=tuple(sorted(-1-a for a in m)); d[k]=Fraction(c)
            memo[x.id]=(d,{}); st.pop(); continue
        a,b=x.a,x.b; ok=True
        if a.id not in memo: st.append(a); ok=False
        if b.id not in memo: st.append(b); ok=False
        if not ok: continue
        (na,da),(nb,db)=memo[a.id],memo[b.id]
        if op=='*':
            d=dict(da)
            for k,p in db.items(): d[k]=d.get(k,0)+p
            n=p_mul(na,nb,limit)
            n,d=cancel(n,d,dens)
            memo[x.id]=(n,d)
        elif op=='+':
            l=dict(da)
            for k,p in db.items(): l[k]=max(l.get(k,0),p)
            for k,p in l.items():
                for _ in range(p-da.get(k,0)): na=p_mul(na,dens[k],limit)
                for _ in range(p-db.get(k,0)): nb=p_mul(nb,dens[k],limit)
            n=p_add(na,nb); n,l=cancel(n,l,dens)
            memo[x.id]=(n,l)
        else:
            # divide: a / b = na/da * db/nb
            if not nb: raise ZeroDivisionError
            for k,p in db.items():
                for _ in range(p): na=p_mul(na,dens[k],limit)
            d=dict(da)
            if len(nb)==1 and () in nb:
                na={m:c/nb[()] for m,c in na.items()}
            else:
                lead=nb[max(nb)]
                key=frozenset((m,c/lead) for m,c in nb.items())
                if key not in dens: dens[key]={m:c/lead for m,c in nb.items()}
                na={m:c/lead for m,c in na.items()}
                d[key]=d.get(key,0)+1
                na,d=cancel(na,d,dens)
            memo[x.id]=(na,d)
        st.pop()
    return memo[t.id]
def cancel(n,d,dens):
    if not n: return n,{}
    for k in list(d):
        while d.get(k,0)>0:
            q=p_divexact(n,dens[k])
            if q is None: break
            n=q; d[k]-=1
        if d.get(k)==0: del d[k]
    return n,d
def p_divexact(n,b):
    """exact division by lex-leading-term; cheap attempt only for linear b"""
    if len(b)>6 or len(n)>400: return None
    lm=max(b,key=_mkey)
    lc=b[lm]
    n=dict(n); q={}
    for _ in range(2000):
        if not n: return q
        m=max(n,key=_mkey)
        mm=list(m)
        for x in lm:
            if x in mm: mm.remove(x)
            else: return None
        c=n[m]/lc; k=tuple(mm)
        q[k]=c
        for m2,c2 in b.items():
            kk=tuple(sorted(k+m2)); s=n.get(kk,0)-c*c2
            if s: n[kk]=s
            else: n.pop(kk,None)
    return None
def _mkey(m): return (len(m),tuple(sorted(m,reverse=True)))
def exact_equal(a,b,limit=4000):
    """True/False exactly, or None when too large"""
    try:
        memo={};dens={}
        n,d=ratfun(asR(rsub(a,b)),memo,dens,limit)
        return not n
    except TooBig: return None
    except ZeroDivisionError: return None

def ac_key(t):
    """multiset of products (associative/commutative normal form without distribution)"""
    out={}
    st=[(asR(t),Fraction(1))]
    while st:
        x,c=st.pop()
        if x.op=='+': st.append((x.a,c)); st.append((x.b,c)); continue
        fs=[];cc=c;s2=[x]
        while s2:
            y=s2.pop()
            if y.op=='*': s2.append(y.a); s2.append(y.b)
            elif y.op=='c': cc*=y.a
            else: fs.append(y.id)
        k=tuple(sorted(fs)); out[k]=out.get(k,0)+cc
    return {k:v for k,v in out.items() if v}

# ---------------------------------------------------------------- z3 conversion
class Z:
    def __init__(s):
        s.i={}; s.r={}; s.b={}; s.facts=[]; s.fn={}; s.atomz={}
    def atom(s,a):
        z=s.atomz.get(a)
        if z is not None: return z
        at=ATOMS[a]
        if at.kind=='sym':
            z=z3.Int('i_'+at.data[0])
        elif at.kind in('div','mod'):
            p,q=at.data
            zp,zq=s.I(p),s.I(q)
            if type(q) is int:
                z=zp/zq if at.kind=='div' else zp%zq
            else:
                qa=z3.Int('q_%d_%d'%(tid(p),tid(q))); ra=z3.Int('m_%d_%d'%(tid(p),tid(q)))
                s.facts.append(z3.Implies(zq>0,z3.And(zp==qa*zq+ra,ra>=0,ra<zq)))
                s.facts.append(z3.Implies(z3.And(zp>=0,zq>0),qa>=0))
                z=qa if at.kind=='div' else ra
        elif at.kind=='ceil':
            z=z3.Int('ceil_%d'%at.id); r=s.R(at.data)
            s.facts.append(z3.And(z3.ToReal(z)>=r,z3.ToReal(z)<r+1))
        elif at.kind=='floor':
            z=z3.Int('floor_%d'%at.id); r=s.R(at.data)
            s.facts.append(z3.And(z3.ToReal(z)<=r,z3.ToReal(z)>r-1))
        elif at.kind=='uf':
            nm,ar=at.data
            f=s.fn.get(('I',nm,len(ar)))
            if f is None: f=s.fn[('I',nm,len(ar))]=z3.Function('fi_'+nm,*([z3.IntSort()]*len(ar)),z3.IntSort())
            z=f(*[s.I(x) for x in ar])
        else: raise Exception(at.kind)
        s.atomz[a]=z
        if at.lo is not None: s.facts.append(z>=at.lo)
        if at.hi is not None: s.facts.append(z<=at.hi)
        return z
    def I(s,t):
        if type(t) is int: return z3.IntVal(t)
        z=s.i.get(t.id)
        if z is None:
            terms=[]
            for m,c in t.d.items():
                x=z3.IntVal(c) if (c!=1 or not m) else None
                for a in m: x=s.atom(a) if x is None else x*s.atom(a)
                terms.append(x)
            z=terms[0] if len(terms)==1 else z3.Sum(terms)
            s.i[t.id]=z
        return z
    def R(s,t):
        if type(t) is Fraction: return z3.RealVal(str(t))
        z=s.r.get(t.id)
        if z is not None: return z
        st=[t]
        while st:
            x=st[-1]
            if x.id in s.r: st.pop(); continue
            op=x.op
            if op=='c': z=z3.RealVal(str(x.a))
            elif op=='sym': z=z3.Real('r_'+x.a)
            elif op=='uf':
                f=s.fn.get(('R',x.a,len(x.b)))
                if f is None: f=s.fn[('R',x.a,len(x.b))]=z3.Function('fr_'+x.a,*([z3.IntSort()]*len(x.b)),z3.RealSort())
                z=f(*[s.I(y) for y in x.b])
            elif op=='i2r': z=z3.ToReal(s.I(x.a))
            else:
                if x.a.id not in s.r: st.append(x.a); continue
                if x.b.id not in s.r: st.append(x.b); continue
                u,v=s.r[x.a.id],s.r[x.b.id]
                z=u+v if op=='+' else u*v if op=='*' else u/v
            s.r[x.id]=z; st.pop()
        return s.r[t.id]
    def B(s,t):
        if type(t) is bool: return z3.BoolVal(t)
        z=s.b.get(t.id)
        if z is None:
            op=t.op
            if op=='ige': z=s.I(t.a)>=0
            elif op=='ieq': z=s.I(t.a)==0
            elif op=='rlt': z=s.R(t.a)<s.R(t.b)
            elif op=='rle': z=s.R(t.a)<=s.R(t.b)
            elif op=='req': z=s.R(t.a)==s.R(t.b)
            elif op=='not': z=z3.Not(s.B(t.a))
            elif op=='and': z=z3.And(s.B(t.a),s.B(t.b))
            elif op=='or': z=z3.Or(s.B(t.a),s.B(t.b))
            elif op=='sym': z=z3.Bool('b_'+t.a)
            s.b[t.id]=z
        return z
def tid(t): return t if type(t) is int else 1000000+t.id
def b_is_int(t):
    if type(t) is bool: return True
    if t.op in('ige','ieq'):
        return all(ATOMS[a].kind not in('ceil','floor') for m in t.a.d for a in m)
    if t.op in('not',): return b_is_int(t.a)
    if t.op in('and','or'): return b_is_int(t.a) and b_is_int(t.b)
    return False

def hasdiv(t,memo={}):
    if type(t) is not R: return False
    st=[t]; seen=set()
    while st:
        x=st.pop()
        if type(x) is not R or x.id in seen: continue
        seen.add(x.id)
        if x.op=='/': return True
        if x.op in('+','*'): st.append(x.a); st.append(x.b)
    return False
