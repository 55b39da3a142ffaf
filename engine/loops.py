"""Loops over symbolic ranges.

Every loop of the functions selected by X.autocut is cut at its header. A loop is handled in one of two ways:
 * map loops: the effect of one iteration (positions and values written as functions of the iteration number) is inferred by
   running the body once for an arbitrary iteration, and then *verified* as an inductive invariant: from a state in which the
   iterations 0..k-1 have had that effect, the body is run again for an arbitrary k < N and has to produce exactly the state of
   k+1; the code after the loop continues from the state of N.
 * sequential loops: the invariant (state after k iterations = a given recursively defined function of k) is supplied by the
   contract; entry, preservation by an arbitrary iteration, and use after the loop are the obligations.
Anything that does not fit (early exits, unrecognised carried state) is Unsupported, i.e. undecided, never accepted."""
import re
from .terms import *
from . import vm as V
from .vm import VM,Arr,Unsupported,PathEnd,UNDEF,compile_func
import z3
class Poison:
    def __repr__(s): return 'POISON'
POISON=Poison()
PRE='loop:'
def batoms(b,out=None):
    if out is None: out=set()
    if type(b) is not B: return out
    if b.op in('ige','ieq'): atoms_i(b.a,out)
    elif b.op in('rlt','rle','req'): atoms_r(asR(b.a),out); atoms_r(asR(b.b),out)
    elif b.op=='not': batoms(b.a,out)
    elif b.op in('and','or'): batoms(b.a,out); batoms(b.b,out)
    return out
def ismode(b):
    while b.op=='not': b=b.a
    return b.op=='sym' and b.a.startswith(PRE)
def atom_of(t): return next(iter(t.d))[0]
class LS: pass
def sub_idx(idx,sub): return tuple(subst_i(x,sub) for x in idx) if type(idx) is tuple else subst_i(idx,sub)
def tup(idx): return idx if type(idx) is tuple else (idx,)
def sub_val(v,sub):
    if type(v) is R: return subst_r(v,sub)
    if type(v) is I: return subst_i(v,sub)
    if type(v) is tuple: return tuple(sub_val(x,sub) for x in v)
    return v
class Layer:
    """effect of a family of iterations: for all params (0<=p<hi(p)) with facts: position idx := val"""
    def __init__(s,params,idx,val,facts): s.params=params; s.idx=idx; s.val=val; s.facts=facts
    def solve(s,idx):
        """parameters of the (unique) iteration that writes idx: (guard list, substitution)"""
        eqs=[isub(a,b) for a,b in zip(tup(s.idx),tup(idx))]
        sub={}; todo=[p for p,_ in s.params]
        ch=True
        while todo and ch:
            ch=False
            for p in todo:
                for n,e in enumerate(eqs):
                    if type(e) is int: continue
                    c=e.d.get((p,))
                    if c in(1,-1) and not any(p in m for m in e.d if m!=(p,)) :
                        rest=isub(e,mkI({(p,):c})); sol=imul(-c,rest)
                        if set(todo)-{p} & atoms_i(sol): pass
                        s1={p:sol}
                        sub={k:subst_i(v,s1) for k,v in sub.items()}; sub[p]=sol
                        eqs=[subst_i(x,s1) for k,x in enumerate(eqs) if k!=n]
                        todo=[x for x in todo if x!=p]; ch=True; break
                if ch: break
        if todo: raise Unsupported('the iteration that writes an element is not determined %r %r'%(s.idx,s.params))
        for p in sub:
            if atoms_i(sub[p]) & set(sub): raise Unsupported('coupled iteration numbers')
        g=[ieq(e,0) for e in eqs]
        for p,hi in s.params:
            g.append(ige(sub[p])); g.append(ilt(sub[p],subst_i(hi,sub) if hi is not None else 0))
        g+=[subst_b(f,sub) for f in s.facts]
        return g,sub
    def with_last_hi(s,hi): return Layer(s.params[:-1]+[(s.params[-1][0],hi)],s.idx,s.val,s.facts)
    def guard_and_value(s,idx):
        # the bound of the outermost family is not part of the template
        inner=Layer([(p,(h if k<len(s.params)-1 else None)) for k,(p,h) in enumerate(s.params)],s.idx,s.val,s.facts)
        eqs_g,sub=Layer([(p,0) for p,_ in s.params],s.idx,s.val,[]).solve(idx)
        n=len(tup(s.idx)); g=[]
        # rebuild the guard with the proper bounds
        eqs=[x for x in eqs_g[:len(eqs_g)-2*len(s.params)]]
        g+=eqs
        for k,(p,hi) in enumerate(s.params):
            g.append(ige(sub[p])); g.append(ilt(sub[p],hi if k==len(s.params)-1 else subst_i(hi,sub)))
        g+=[subst_b(f,sub) for f in s.facts]
        r=True
        for x in g:
            r=band(r,x)
            if r is False: break
        return r,sub
def snap(X): return {i:(o,dict(o.c),None if o.arr is None else list(o.arr.layers)) for i,o in X.mem.items() if not o.ro}
def shift_r(t,k):
    """every element x(i) of an input array in the term replaced by x(i+k)"""
    if type(t) is not R: return t
    memo={}
    def go(t):
        if type(t) is not R: return t
        r=memo.get(t.id)
        if r is not None: return r
        if t.op=='uf': r=ruf(t.a,tuple(iadd(x,k) for x in t.b)) if len(t.b)==1 else t
        elif t.op=='+': r=radd(go(t.a),go(t.b))
        elif t.op=='*': r=rmul(go(t.a),go(t.b))
        elif t.op=='/': r=rdiv(go(t.a),go(t.b))
        else: r=t
        memo[t.id]=r
        return r
    return go(t)
def delta(a,b,X=None):
    """loop-carried value a -> b after one iteration: ('same',) ('aff',d) ('shift',) ('other',)"""
    if a is b: return('same',)
    if X is not None and type(a) in(R,Fraction) and type(b) in(R,Fraction):
        if X.real_eq(a,b): return('same',)
        if type(a) is R and X.real_eq(shift_r(a,1),b): return('shift',)
        return('other',)
    if type(a) in(int,I) and type(b) in(int,I) and type(a) is not bool and type(b) is not bool:
        d=isub(b,a)
        if type(d) is int:
            d&=V.M64
            if d>>63: d-=1<<64
            if d==0: return('same',)
        return('aff',d)
    if type(a) is tuple and type(b) is tuple and len(a)==2==len(b) and type(a[0]) is int and a[0]==b[0]:
        d=isub(b[1],a[1]); return('aff',d) if type(d) is not int or d else ('same',)
    try:
        if a==b and type(a) is type(b): return('same',)
    except Exception: pass
    return('other',)
def at_iter(a,cl,k):
    if cl[0]=='same': return a
    if cl[0]=='other': return POISON
    if cl[0]=='shift': return shift_r(a,k)
    if type(a) is tuple: return (a[0],iadd(a[1],imul(cl[1],k)))
    return iadd(a,imul(cl[1],k))
def merge(c1,c2): return c1 if c1==c2 else ('other',)
class Loops:
    """mixed into a VM instance"""
    def __init__(s,X,auto,seq=()):
        s.X=X; X.loops=s; X.autocut=re.compile(auto); s.seq=[(re.compile(p),h) for p,h in seq]
        s.info={}; X.loop_entry=s.entry; X.loop_back=s.back; X.loop_exit=s.exit; X.loop_fail=0
        X.quiet=0; s.nuid=0
    def decide_mode(s,what,uid): return s.X.decide(bsym('%s%s%d'%(PRE,what,uid)))
    # ------------------------------------------------------------ header
    def entry(s,key,names,vals,depth):
        X=s.X; st=X.ghost.setdefault('loopstack',[])
        for o in X.mem.values():
            if type(o.size) is I and o.arr is None and o.c and not o.ro: X.make_arr(o)
        cnt=X.ghost['loopcount']=X.ghost.get('loopcount',0)+1
        ident=(X.pnode,cnt,key)
        info=s.info.get(ident)
        if info is None: info=s.info[ident]=dict(uid=len(s.info),paths=[],phi=None,cells={},exits=0)
        uid=info['uid']; L=LS(); L.key=key; L.info=info; L.vals=vals; L.snap=snap(X); L.pathpos=len(X.path); L.names=names; L.seq=None; L.outer_quiet=X.quiet
        dn=X.m.demangled.get(key[0],key[0])
        if depth==0:
            for p,h in s.seq:
                if p.search(dn): L.seq=h(X,key,vals,L); break
        st.append(L)
        # 1. carried values: one iteration from the initial state
        if s.decide_mode('probe',uid):
            X.quiet+=1; L.mode='probe'; return vals
        if info['phi'] is None:
            # the body is not reachable from here
            L.mode='noiter'; return vals
        # 2. effect of an arbitrary iteration
        k=isym('it%d'%uid,0,None); L.k=k
        if s.decide_mode('infer',uid):
            X.quiet+=1; L.mode='infer'; X.assume(ile(k,1<<59)); L.pathpos=len(X.path)
            s.guess(L,k)
            return s.state(L,k,None)
        # 3. the case at hand
        P=[p for p in info['paths'] if all(X.decide(g) for g in p['G'])]
        if not P: L.mode='noiter'; return vals
        N=s.bound(P)
        if type(N) is int and 0<=N<=24 and L.seq is None: L.mode='unroll'; return vals
        for v,c in zip(vals,info['phi']):
            if c[0]=='other': raise Unsupported('loop-carried value in '+dn[:120])
        if not X.decide(ige(N,1)): L.mode='noiter'; return vals
        if len(P)>1:      # cases that only arise beyond the last iteration (the step below checks that no case is missing)
            def dead(p):
                b=ilt(k,N)
                for f in p['F']: b=band(b,f)
                return b is False or X.check_sat(b)==z3.unsat
            P=[p for p in P if not dead(p)]
        L.N=N; L.P=P
        s.disjoint(L)
        if not X.quiet and s.decide_mode('step',uid):     # (the verification is part of the outer loop's own verification run)
            L.mode='step'; i=isym('cur%d'%uid,0,None); L.i=i; X.assume(ilt(i,N)); L.pathpos=len(X.path)
            r=s.state(L,i,P)
            if L.seq: L.seq.step(i)
            return r
        L.mode='exit'
        r=s.state(L,N,P)
        if L.seq: L.seq.after(N)
        return r
    def bound(s,P):
        X=s.X
        for what in('N','N2'):
            c=None
            for p in P:
                ids={tid(x) if type(x) is I else x:x for x in p[what]}
                c=ids if c is None else {k:v for k,v in c.items() if k in ids}
            if c: break
        else: raise Unsupported('number of iterations not recognised: %r'%[(p['N'],p['N2'],p['F'],p['G']) for p in P])
        c=[x for x in c.values() if what=='N' or not(type(x) is int and x<=0)]; best=c[0]
        for x in c[1:]:
            if X.decide(ile(x,best)): best=x
        return best
    def state(s,L,k,P):
        """the state at the header of iteration k"""
        X=s.X
        for (o,off),c in L.info['cells'].items():
            ob=X.mem.get(o)
            if ob is None: continue
            v0=L.snap[o][1].get(off,UNDEF) if o in L.snap else UNDEF
            v=at_iter(v0,c,k)
            ob.c[off]=v
        if L.seq is not None: L.seq.memory(k)
        elif P is not None:
            for oi,ls in s.layers(P):
                ob=X.mem[oi]
                if ob.arr is None: X.make_arr(ob)
                ob.arr=Arr(list(ob.arr.layers)+[('map',l.with_last_hi(k)) for l in ls],ob.arr.esz)
        L.head={i:(None if o.arr is None else len(o.arr.layers)) for i,o in X.mem.items() if not o.ro}
        L.hsnap={i:dict(o.c) for i,o in X.mem.items() if not o.ro}
        return tuple(at_iter(v,c,k) for v,c in zip(L.vals,L.info['phi']))
    def guess(s,L,k):
        """for the inference run only (nothing is concluded from it): earlier iterations wrote what the first one wrote, shifted"""
        X=s.X; f=L.info.get('first') or []
        if len(f)!=1 or f[0] is None: return
        a=atom_of(isym('gs%d'%L.info['uid'],0,None)); p=iatom(ATOMS[a])
        for oi,ls in f[0].items():
            ob=X.mem.get(oi)
            if ob is None or ob.gidx is not None: continue
            if ob.arr is None: X.make_arr(ob)
            ob.arr=Arr(list(ob.arr.layers)+[('map',Layer([(a,k)],iadd(l.idx,p),shift_r(l.val,p) if type(l.val) is R else l.val,[])) for l in ls],ob.arr.esz)
    def layers(s,P):
        out={}
        for p in P:
            for oi,ls in p['W'].items(): out.setdefault(oi,[]).extend(ls)
        return sorted(out.items())
    def disjoint(s,L):
        """writes of different templates in different iterations never meet"""
        X=s.X
        if L.seq is not None: return
        a=atom_of(L.k)
        for oi,ls in s.layers(L.P):
            for x in range(len(ls)):
                # every template determines its iteration
                ls[x].solve(tuple(isym('pos%d'%d) for d in range(len(tup(ls[x].idx))))) if type(ls[x].idx) is tuple else ls[x].solve(isym('pos0'))
                for y in range(x):
                    A,Bq=ls[x],ls[y]
                    ren={p:isym('ren%d'%p,0,None) for p,_ in Bq.params}
                    cs=[ieq(u,subst_i(v,ren)) for u,v in zip(tup(A.idx),tup(Bq.idx))]
                    for (p,h) in A.params[:-1]: cs.append(ilt(iatom(ATOMS[p]),h))
                    for (p,h) in Bq.params[:-1]: cs.append(ilt(ren[p],subst_i(h,ren)))
                    cs+=[ilt(L.k,L.N),ilt(ren[a],L.N),bnot(ieq(L.k,ren[a]))]+list(A.facts)+[subst_b(f,ren) for f in Bq.facts]
                    b=True
                    for c in cs: b=band(b,c)
                    if b is not False and X.check_sat(b)!=z3.unsat: raise Unsupported('iterations write the same element')
    # ------------------------------------------------------------ back edge
    def back(s,key,names,vals):
        X=s.X; st=X.ghost['loopstack']; L=st[-1]
        if L.key!=key: raise Unsupported('irregular loop')
        m=L.mode; info=L.info
        if m=='unroll':
            L.n=getattr(L,'n',0)+1
            if L.n>64: raise Unsupported('loop runs too often')
            return vals
        if m in('noiter','exit'): raise Unsupported('iteration count')
        if m=='probe':
            cl=tuple(delta(a,b,X) for a,b in zip(L.vals,vals))
            info['phi']=cl if info['phi'] is None else tuple(merge(a,b) for a,b in zip(info['phi'],cl))
            s.cells(L,L.snap,None)
            L.head={i:(None if a is None else len(a)) for i,(o,c,a) in L.snap.items()}
            if L.seq is None: info.setdefault('first',[]).append(s.writes(L,True))
            raise PathEnd()
        if m=='infer':
            s.cells(L,L.snap,L.hsnap)
            a=atom_of(L.k); F=[];G=[];N=[];N2=[]
            for f in X.path[L.pathpos:]:
                if ismode(f): continue
                forced=f.id in X.qfacts
                if f.op=='ige' and f.a.d.get((a,))==-1 and not any(a in mm for mm in f.a.d if mm!=(a,)):
                    N2.append(iadd(iadd(f.a,L.k),1))
                    if not forced: N.append(N2[-1])
                if f.op=='not' and f.a.op=='ieq' and (a,) in f.a.a.d and not any(a in mm for mm in f.a.a.d if mm!=(a,)):
                    q=f.a.a.d[(a,)]; e=iadd(f.a.a,imul(-q,L.k))      # k != c: the end may be the first position excluded
                    if type(e) is int: e=None if e%q else -e//q
                    else: e=None if any(v%q for v in e.d.values()) else mkI({k_:-v//q for k_,v in e.d.items()})
                    if e is not None: N2.append(e)
                if forced: continue
                at=batoms(f)
                if a in at: F.append(f)
                else: G.append(f)
            if L.seq is not None and hasattr(L.seq,'inferred'): L.seq.inferred()
            W={} if L.seq is not None else s.writes(L)
            out={}
            for oi,ls in W.items():
                out[oi]=[Layer(l.params+[(a,None)],l.idx,l.val,l.facts+F) for l in ls]
            info['paths'].append(dict(G=G,F=F,N=N,N2=N2,W=out))
            raise PathEnd()
        # step: the state has to be that of the next iteration
        X.stats['obl']+=1; X.obl_kinds['loop invariant']=X.obl_kinds.get('loop invariant',0)+1
        nx=iadd(L.i,1)
        for v0,c,v in zip(L.vals,info['phi'],vals):
            w=at_iter(v0,c,nx)
            if not s.same(w,v): raise Unsupported('loop-carried value is not affine: %r'%(key,))
        for i,o in X.mem.items():
            if i not in L.hsnap: continue
            h=L.hsnap[i]
            for off,v in o.c.items():
                if off in h and h[off] is v: continue
                c=info['cells'].get((i,off))
                if c is None:
                    if L.snap.get(i) and off in L.snap[i][1] and s.same(L.snap[i][1][off],v): continue
                    raise Unsupported('unexpected write in a loop')
                if c[0]!='other' and not s.same(at_iter(L.snap[i][1].get(off,UNDEF),c,nx),v): raise Unsupported('carried memory is not affine')
        if L.seq is not None:
            L.seq.check(L.i); X.stats['dis']+=1; raise PathEnd()
        W=s.writes(L); sub={atom_of(L.k):L.i}
        for p in L.P:
            if s.match(p,W,sub): break
        else: raise Unsupported('the effect of an iteration depends on earlier iterations')
        X.stats['dis']+=1
        raise PathEnd()
    def same(s,a,b):
        X=s.X
        if a is b: return True
        if type(a) is tuple and type(b) is tuple: return len(a)==len(b) and all(s.same(x,y) for x,y in zip(a,b))
        if type(a) in(int,I) and type(b) in(int,I):
            d=isub(a,b)
            if type(d) is int: return d%(1<<64)==0
            return X.entails(ieq(d,0))
        if type(a) in(R,Fraction) and type(b) in(R,Fraction): return bool(X.real_eq(a,b))
        return type(a) is type(b) and a==b
    def match(s,p,W,sub):
        X=s.X
        if set(W)!=set(p['W']): return False
        for f in p['F']:
            g=subst_b(f,sub)
            if g is False or (g is not True and not X.entails(g)): return False
        for oi,ls in W.items():
            es=p['W'][oi]
            if len(es)!=len(ls): return False
            for e,l in zip(es,ls):
                if len(e.params)!=len(l.params)+1: return False
                ren={q:iatom(ATOMS[r]) for (q,_),(r,_) in zip(e.params,l.params)}; ren.update(sub)
                for (q,h),(r,h2) in zip(e.params,l.params):
                    if not s.same(subst_i(h,ren),h2): return False
                if not all(s.same(x,y) for x,y in zip(tup(sub_idx(e.idx,ren)),tup(l.idx))): return False
                if not s.same(sub_val(e.val,ren),l.val): return False
                fs=[subst_b(f,ren) for f in e.facts[:len(l.facts)]]
                if any(x is not y for x,y in zip(fs,l.facts)): return False
        return True
    def writes(s,L,soft=False):
        """array writes since the header"""
        X=s.X; W={}
        for i,n in L.head.items():
            o=X.mem.get(i)
            if o is None:
                if soft: return None
                raise Unsupported('object released in a loop')
            if o.arr is None: continue
            ls=o.arr.layers
            new=ls[n:] if n is not None else ls[1:]
            if new:
                out=[]
                for l in new:
                    if l[0]=='w': out.append(Layer([],l[1],l[2],[]))
                    elif soft: return None
                    elif l[0]=='map': out.append(l[1])
                    else: raise Unsupported('fill in a loop')
                W[i]=out
        return W
    def cells(s,L,snap,head):
        """memory cells changed by an iteration"""
        X=s.X; cs=L.info['cells']
        for i,(o0,c0,_) in snap.items():
            o=X.mem.get(i)
            if o is None: continue
            base=head[i] if head is not None and i in head else c0
            for off,v in o.c.items():
                if off in base and base[off] is v: continue
                if head is None:
                    c=delta(c0[off],v,X) if off in c0 and c0[off] is not UNDEF else ('other',)
                    if c==('same',): continue
                    cs[i,off]=merge(cs[i,off],c) if (i,off) in cs else c
                else:
                    c=cs.get((i,off))
                    if c is None: 
                        if off in c0 and s.same(c0[off],v): continue
                        cs[i,off]=('other',)
                    elif c[0]!='other' and not s.same(at_iter(c0.get(off,UNDEF),c,iadd(L.k,1)),v): cs[i,off]=('other',)
    def exit(s,key):
        X=s.X; st=X.ghost['loopstack']; L=st[-1]
        if L.key!=key: raise Unsupported('irregular loop')
        if L.mode in('probe','infer'): raise PathEnd()
        if L.mode=='step': raise Unsupported('the loop can end early')
        st.pop()
def install(auto,seq=()):
    return lambda X: Loops(X,auto,seq)
