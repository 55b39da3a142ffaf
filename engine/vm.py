"""Symbolic machine for the LLVM IR of the real code.

Each IR function is translated mechanically to a python function over the term domain of terms.py (concrete values are
python ints / Fractions / tuples, symbolic values are I / R / B terms). Paths are explored by re-execution with a decision
prefix; every load, store, division and branch on an undefined value is an obligation. Doubles are mathematical reals."""
import re, sys, time, z3
from fractions import Fraction
from . import irparse as ir
from .terms import *

M64=(1<<64)-1
NULL=(0,0)
sys.setrecursionlimit(20000)

class Undef:
    def __repr__(s): return 'UNDEF'
    def __getitem__(s,i): raise Violation('undef','use of an uninitialised pointer')
UNDEF=Undef()

class VMError(Exception): pass
class Unsupported(VMError): pass
class Violation(VMError):
    def __init__(s,kind,msg): s.kind=kind; s.msg=msg; Exception.__init__(s,kind+': '+msg)
class PathEnd(Exception): pass
class CxxThrow(Exception):
    def __init__(s,ty,obj): s.ty=ty; s.obj=obj; Exception.__init__(s,ty)
class Unreachable(VMError): pass

class Obj:
    __slots__=('id','size','c','small','kind','name','arr','dead','ro','gidx','monitor')
    def __init__(s,id,size,kind,name=''):
        s.id=id; s.size=size; s.c={}; s.small=None; s.kind=kind; s.name=name; s.arr=None; s.dead=False; s.ro=False; s.gidx=None; s.monitor=None
    def clone(s):
        o=Obj(s.id,s.size,s.kind,s.name); o.c=dict(s.c); o.small=None if s.small is None else dict(s.small); o.ro=s.ro
        o.arr=None if s.arr is None else Arr(list(s.arr.layers),s.arr.esz); o.gidx=None if s.gidx is None else list(s.gidx); o.monitor=s.monitor
        return o

# ---------------------------------------------------------------- symbolic arrays (8-byte elements)
class Arr:
    """content of an object accessed at symbolic offsets: a list of layers, newest last.
    layer: ('base',fn idx->value) | ('w',idx,val) | ('fill',lo,hi,fn idx->value) | ('undef',)"""
    __slots__=('layers','esz')
    def __init__(s,layers,esz=8): s.layers=layers; s.esz=esz

FP={'double','float','x86_fp80'}

class VM:
    def __init__(X,module,hooks=(),opts=None):
        X.m=module; X.ns={}; X.fnname={}; X.hooks=[(re.compile(p),f) for p,f in hooks]+DEFAULT_HOOKS_C
        X.mem={}
        X.opts=opts or {}
        X.globals={}; X.gnext=-1; X.gobj={}
        X.konst={}
        X.fidx={}
        X.autocut=None; X.quiet=0     # loop cutting: see loops.py
        X.zc=Z(); X.solver=z3.Solver(); X.solver.set('timeout',X.opts.get('timeout',4000)); X.zstack=[]; X.zfacts=0
        X.stats=dict(obl=0,dis=0,q=0,tq=0.0,paths=0,syn=0,z3=0,instr=0)
        X.qcache={}
        X.pnodes={}; X.forced=set(); X.gecache={}
        X.work=[]
        X.prefix=(); X.failures=[]; X.funcs_used=set(); X.assumed=set()
        X.obl_kinds={}
        X.axioms=[]
        X.steplimit=X.opts.get('steps',20_000_000); X.frozen=None; X.rawname={}; X.rawfn={}
        X.reset(())
        X._bind_mem()
    # ------------------------------------------------------------ runs
    def reset(X,prefix):
        X.forkn=0
        X.relcache={}
        X.mem.clear(); X.next=1; X.path=[]; X.pset=set(); X.csub={}; X.pnode=0; X.prefix=prefix; X.pos=0; X.taken=[]
        X.steps=0; X.fresh=0; X.quiet=0; X.qfacts=set(); X.ghost={}; X.reads={}
        X.tasks=[]
        fz=X.frozen
        if fz is not None:
            X.next=fz[1]
            for i,o in fz[0].items(): X.mem[i]=o.clone()
            X.ghost={k:(v.copy() if hasattr(v,'copy') else v) for k,v in fz[2].items()}; X.fresh=fz[3]
            for b in fz[4]: X.assume(b)
    def freeze(X):
        """make the current memory the starting state of every later path (only when no decision was taken so far)"""
        assert not X.work
        X.frozen=({i:o.clone() for i,o in X.mem.items()},X.next,{k:(v.copy() if hasattr(v,'copy') else v) for k,v in X.ghost.items()},X.fresh,list(X.path))
    def explore(X,fn,maxpaths=20000,deadline=None):
        """fn(X) is run once for every feasible path"""
        X.work=[()]
        out=[]
        while X.work:
            if deadline and time.time()>deadline: raise Unsupported('deadline')
            p=X.work.pop()
            X.reset(p)
            X.stats['paths']+=1
            if X.stats['paths']>maxpaths: raise Unsupported('too many paths')
            try:
                r=fn(X); out.append(('ret',r,list(X.path)))
            except PathEnd: out.append(('end',None,list(X.path)))
            except CxxThrow as e: out.append(('throw',e.ty,list(X.path)))
            except Violation as e:
                if X.quiet or X.check_sat(None)==z3.unsat: out.append(('end',None,list(X.path)))
                else: X.fail(e.kind,e.msg); out.append(('viol',e.kind,list(X.path)))
        return out
    def fail(X,kind,msg,model=None):
        if X.quiet: raise PathEnd()
        X.failures.append(dict(kind=kind,msg=msg,path=[repr(b) for b in X.path[-12:]],model=model or X.get_model()))
        if len(X.failures)>=X.opts.get('maxfail',3): raise Unsupported('stopped after failures')
    def get_model(X,extra=None):
        try:
            X.sync(True)
            X.solver.push()
            if extra is not None: X.solver.add(X.zB(extra))
            X.flush(); r=X.solver.check()
            md={}
            if r==z3.sat:
                mm=X.solver.model()
                for d in mm.decls():
                    if d.arity()==0: md[d.name()]=str(mm[d])
            X.solver.pop()
            return md
        except Exception as e: return {'model-error':str(e)}
    # ------------------------------------------------------------ solver
    def zB(X,b): return X.zc.B(b)
    def flush(X):
        f=X.zc.facts
        while X.zfacts<len(f):
            X.base.add(f[X.zfacts]) if False else X.solver.add(f[X.zfacts]); X.zfacts+=1
    def sync(X,full=True):
        """bring the z3 stack in line with the current path"""
        st=X.zstack; k=0
        while k<len(st) and k<len(X.path) and st[k] is X.path[k]: k+=1
        while len(st)>k:
            X.solver.pop(); st.pop()
        for b in X.path[k:]:
            X.solver.push(); X.solver.add(X.zB(b)); st.append(b)
        # definitional facts of atoms must be present at every level: re-add all (cheap, sliced below)
    def facts_for(X):
        return X.zc.facts
    def check_sat(X,b):
        """sat / unsat / unknown of path and b"""
        if b is True: b=None
        if b is False: return z3.unsat
        key=(X.pnode,None if b is None else b.id)
        r=X.qcache.get(key)
        if r is not None: return r
        t=time.time()
        X.sync()
        X.solver.push()
        n0=len(X.zc.facts)
        if b is not None: X.solver.add(X.zB(b))
        for f in X.zc.facts: X.solver.add(f)
        for ax in X.axioms:
            for f in ax(X,b): X.solver.add(X.zB(f))
        n1=len(X.zc.facts)
        for f in X.zc.facts[n0 if n0<n1 else n1:]: X.solver.add(f)
        r=X.solver.check()
        if r==z3.unknown: r=X.weaker_unsat(b)
        X.solver.pop()
        X.stats['q']+=1; X.stats['tq']+=time.time()-t
        X.qcache[key]=r
        return r
    def weaker_unsat(X,b):
        """part of the facts may already be contradictory: first those about integers only, then without the divisions"""
        def kind(f):
            if type(f) is not B: return 0
            if f.op in('ige','ieq'): return 0
            if f.op in('rlt','rle','req'): return 1 if not hasdiv(f.a) and not hasdiv(f.b) else 2
            if f.op=='not': return kind(f.a)
            if f.op in('and','or'): return max(kind(f.a),kind(f.b))
            return 0
        fs=list(X.path)+([b] if b is not None else [])
        for lim in(0,1):
            S=z3.Solver(); S.set('timeout',X.opts.get('timeout',4000)); sel=[f for f in fs if kind(f)<=lim]
            for f in sel: S.add(X.zB(f))
            if lim:
                for ax in X.axioms:
                    for f in ax(X,b):
                        if kind(f)<=lim: S.add(X.zB(f))
            if S.check()==z3.unsat: X.stats['weak']=X.stats.get('weak',0)+1; return z3.unsat
        return z3.unknown
    def assume(X,b):
        if b is True: return
        if b is False: raise PathEnd()
        if b in X.pset: return
        if b.op=='and':
            X.assume(b.a); X.assume(b.b); return
        if b.op=='ieq':
            ms=[m for m in b.a.d if m]
            if len(ms)==1 and len(ms[0])==1:
                c=b.a.d[ms[0]]; k=b.a.d.get((),0)
                if k%c==0: X.csub[ms[0][0]]=-k//c
        X.pset.add(b)
        k=(X.pnode,b.id); n=X.pnodes.get(k)
        if n is None: n=X.pnodes[k]=len(X.pnodes)+1
        X.pnode=n; X.path.append(b)
    def entails(X,b):
        if type(b) is bool: return b
        if b in X.pset: return True
        if b.op=='ige':
            key=(X.pnode,b.id); g=X.gecache.get(key)
            if g is None: g=X.gecache[key]=X.quick_ge(b.a)
            if g: X.stats['syn']+=1; return True
        r=X.check_sat(bnot(b))
        return r==z3.unsat
    def quick_ge(X,t,depth=4):
        """t>=0 by substituting known upper bounds (facts u-a>=0) into negative monomials"""
        if type(t) is int: return t>=0
        lo,_=ibounds(t)
        if lo is not None and lo>=0: return True
        for f in X.path:
            if f.op=='ige':
                d=isub(t,f.a)
                if type(d) is int:
                    if d>=0: return True
                else:
                    l,_=ibounds(d)
                    if l is not None and l>=0: return True
        if depth==0: return False
        # substitute a := u - s
        neg=[m for m,c in t.d.items() if c<0 and m]
        if not neg or len(t.d)>30: return False
        if all(len(m)<2 for m in t.d): return False     # linear: leave to the solver
        for m in neg:
            for a in m:
                for f in X.path:
                    if f.op!='ige': continue
                    c=f.a.d.get((a,))
                    if c==-1 and not any(a in mm for mm in f.a.d if mm!=(a,)):
                        s=X.slack(f)
                        u=isub(iadd(f.a,mkI({(a,):1})),s)
                        t2=subst_i(t,{a:u})
                        if t2 is t: continue
                        if X.quick_ge(t2,depth-1): return True
        return False
    def slack(X,f):
        return isym('slk_%d'%f.id,0,None)
    def decide(X,b):
        """branch on a boolean; forks the path when both outcomes are feasible"""
        if b is True or b is False: return b
        if b is UNDEF: raise Violation('undef','branch on an uninitialised value')
        key=(X.pnode,b.id)
        if X.pos<len(X.prefix):
            v=X.prefix[X.pos]; X.pos+=1; X.taken.append(v); n0=len(X.path); X.assume(b if v else bnot(b))
            if key in X.forced: X.qfacts.update(f.id for f in X.path[n0:])
            else: X.forkn+=1
            return v
        if b in X.pset: v=True
        elif bnot(b) in X.pset: v=False
        else:
            f=X.check_sat(bnot(b))
            if f==z3.unsat: v=True; X.forced.add(key)
            else:
                t=X.check_sat(b)
                if t==z3.unsat: v=False; X.forced.add(key)
                else:
                    v=True; X.work.append(tuple(X.taken)+(False,)); X.forkn+=1
                    if X.forkn>X.opts.get('maxforks',120): raise Unsupported('a path with more than %d open decisions (a loop over a symbolic range?)'%X.opts.get('maxforks',120))
        X.pos+=1; X.taken.append(v); X.prefix=tuple(X.taken); n0=len(X.path)
        X.assume(b if v else bnot(b))
        if key in X.forced: X.qfacts.update(f.id for f in X.path[n0:])
        return v
    @property
    def replaying(X): return X.pos<len(X.prefix)
    def oblige(X,kind,b,msg=''):
        """prove b on the current path; returns True if discharged"""
        if X.pos<len(X.prefix) and not X.quiet:
            if b is not False: 
                X.assume(b); return True
        if X.quiet:
            if b is UNDEF or b is False: raise PathEnd()
            n0=len(X.path); X.assume(b); X.qfacts.update(f.id for f in X.path[n0:]); return True
        X.stats['obl']+=1; X.obl_kinds[kind]=X.obl_kinds.get(kind,0)+1
        if b is UNDEF: X.fail(kind,'undefined value in '+msg); raise PathEnd()
        if b is True: X.stats['dis']+=1; X.stats['syn']+=1; return True
        if b is not False and X.entails(b):
            X.stats['dis']+=1; X.stats['z3']+=1; X.assume(b); return True
        if b is not False and X.check_sat(bnot(b))==z3.unknown: raise Unsupported('solver gave up on [%s] %s : %r'%(kind,msg[:200],b))
        md=X.get_model(bnot(b))
        X.fail(kind,msg+' : '+repr(b)[:400],md)
        raise PathEnd()
    def oblige_real_eq(X,kind,a,b,msg='',defs=None):
        """obligation a == b over the reals"""
        if X.pos<len(X.prefix) or X.quiet: return True
        X.stats['obl']+=1; X.obl_kinds[kind]=X.obl_kinds.get(kind,0)+1
        if a is UNDEF or b is UNDEF or type(a) is float or type(b) is float:
            X.fail(kind,msg+': undefined value'); return False
        how=X.real_eq(a,b)
        if how:
            X.stats['dis']+=1; X.stats[how]=X.stats.get(how,0)+1; return True
        X.fail(kind,msg+': %s != %s'%(rstr(a,4)[:300],rstr(b,4)[:300]),X.get_model())
        return False
    def real_eq(X,a,b):
        r=X.real_eq0(a,b)
        if r: return r
        # equalities of reals on the path: substitute
        for f in X.path:
            if f.op!='req': continue
            for p,q in((f.a,f.b),(f.b,f.a)):
                if p.op=='+' :
                    u,v=p.a,p.b
                    if v.op=='sym': u,v=v,u
                    if u.op=='sym' and v.op=='c': p,q=u,asR(rsub(unR(q),unR(v)))
                if p.op=='sym' and p.id not in rleaves(q):
                    sub={p.id:unR(q)}
                    a2=subst_r(asR(a),{},{},sub); b2=subst_r(asR(b),{},{},sub)
                    if (a2 is not a and a2!=a) or (b2 is not b and b2!=b):
                        if a2 is b2 or (isc(a2) and isc(b2) and a2==b2): return 'syn'
                        if X.real_eq(unR(asR(a2)),unR(asR(b2))): return 'exact'
                    break
        return None
    def real_eq0(X,a,b):
        if a is b or (isc(a) and isc(b) and a==b): return 'syn'
        if isc(a) and isc(b): return None
        if not pit_equal(a,b):
            if not X.opts.get('unify'): 
                return X.real_eq_mod(a,b)
            return None
        if ac_key(a)==ac_key(b): return 'ac'
        e=exact_equal(a,b,X.opts.get('limit',4000))
        if e is True: return 'exact'
        if e is False: return X.real_eq_mod(a,b)
        return 'pit'
    def int_relations(X,ats):
        """equalities atom = constant or atom = atom + constant that the path implies"""
        key=(X.pnode,frozenset(ats)); c=X.relcache.get(key)
        if c is not None: return c
        sub={}; X.sync(True); X.flush()
        if X.solver.check()==z3.sat:
            mm=X.solver.model(); vals={}
            for a in sorted(ats):
                t=iatom(ATOMS[a]); v=mm.eval(X.zc.I(t),model_completion=True)
                if z3.is_int_value(v): vals[a]=v.as_long()
            reps=[]
            for a,v in vals.items():
                t=iatom(ATOMS[a])
                if X.entails(ieq(t,v)): sub[a]=v; continue
                for r in reps:
                    if X.entails(ieq(isub(t,iatom(ATOMS[r])),v-vals[r])): sub[a]=iadd(iatom(ATOMS[r]),v-vals[r]); break
                else: reps.append(a)
        X.relcache[key]=sub
        return sub
    def real_eq_mod(X,a,b):
        """equality modulo integer equalities of indices that the path implies"""
        la,lb=rleaves(asR(a)),rleaves(asR(b))
        if any(x.op=='i2r' for x in list(la.values())+list(lb.values())):
            sub=X.int_relations(atoms_r(asR(a))|atoms_r(asR(b)))
            if sub:
                a=unR(asR(subst_r(asR(a),sub))); b=unR(asR(subst_r(asR(b),sub)))
                r=X.real_eq0(a,b) if not isc(a) or not isc(b) else ('syn' if a==b else None)
                if r: return r
                la,lb=rleaves(asR(a)),rleaves(asR(b))
        ufs=[x for x in list(la.values())+[y for k,y in lb.items() if k not in la] if x.op=='uf']
        reps=[];sub={}
        for x in ufs:
            for y in reps:
                if y.a==x.a and len(y.b)==len(x.b) and all(X.entails(ieq(p,q)) for p,q in zip(x.b,y.b)):
                    sub[x.id]=y; break
            else: reps.append(x)
        if not sub: return None
        if X.check_sat(None)==z3.unsat: return 'infeasible'
        a2=subst_r(asR(a),{},{},sub); b2=subst_r(asR(b),{},{},sub)
        if a2 is b2: return 'syn'
        if not pit_equal(a2,b2): return None
        e=exact_equal(a2,b2,X.opts.get('limit',4000))
        return 'exact' if e else (None if e is False else 'pit')
    # ------------------------------------------------------------ memory
    def new(X,size,kind='heap',name=''):
        i=X.next; X.next+=1
        X.mem[i]=Obj(i,size,kind,name)
        return (i,0)
    def new_doubles(X,vals,name='data'):
        p=X.new(8*len(vals),'heap',name); c=X.mem[p[0]].c
        for i,v in enumerate(vals): c[8*i]=v
        return p
    def new_array(X,n,fn,name='arr'):
        """symbolic-length array of 8-byte elements with content fn(idx)"""
        p=X.new(imul(8,n),'heap',name); X.mem[p[0]].arr=Arr([('base',fn)])
        return p
    def _bind_mem(X):
        mem=X.mem
        def ldd(p):
            try:
                o=mem[p[0]]; v=o.c[p[1]]
                if o.small is not None and o.small.get(p[1],8)!=8: v=X.ld_slow(p,8)
            except (KeyError,TypeError): v=X.ld_slow(p,8)
            if type(v) is Fraction or type(v) is R: return v
            if type(v) is int:
                if v==0: return Fraction(0)
                import struct
                return ir.float_to_val(struct.unpack('<d',struct.pack('<Q',v))[0])
            return v
        def ldi(p):
            try:
                o=mem[p[0]]; v=o.c[p[1]]
                if o.small is not None and o.small.get(p[1],8)!=8: v=X.ld_slow(p,8)
            except (KeyError,TypeError): v=X.ld_slow(p,8)
            if v is NULL: return 0
            return v
        def ldp(p):
            try:
                o=mem[p[0]]; v=o.c[p[1]]
                if o.small is not None and o.small.get(p[1],8)!=8: v=X.ld_slow(p,8)
            except (KeyError,TypeError): v=X.ld_slow(p,8)
            if type(v) is int:
                if v==0: return NULL
                raise Unsupported('int as pointer')
            return v
        def st(p,v):
            o=mem.get(p[0])
            if o is not None and p[1] in o.c and o.small is None: o.c[p[1]]=v
            else: X.st_slow(p,v,8)
        if X.opts.get('log'):
            X.acc=None
            def wrap(f,w,sz):
                def g(p,*a):
                    if X.acc is not None and type(p) is tuple: X.acc[w].add((p[0],p[1],sz))
                    return f(p,*a)
                return g
            ldd=wrap(ldd,0,8); ldi=wrap(ldi,0,8); ldp=wrap(ldp,0,8); st=wrap(st,1,8)
            o_ldn,o_stn,o_mc,o_ms=X.ldn,X.stn,X.memcpy,X.memset
            def ldn(p,n):
                if X.acc is not None: X.acc[0].add((p[0],p[1],n))
                return o_ldn(p,n)
            def stn(p,v,n):
                if X.acc is not None: X.acc[1].add((p[0],p[1],n))
                return o_stn(p,v,n)
            def memcpy(d,s_,n):
                if X.acc is not None and n: X.acc[0].add((s_[0],s_[1],n)); X.acc[1].add((d[0],d[1],n))
                return o_mc(d,s_,n)
            def memset(d,v,n):
                if X.acc is not None and n: X.acc[1].add((d[0],d[1],n))
                return o_ms(d,v,n)
            X.ldn,X.stn,X.memcpy,X.memset=ldn,stn,memcpy,memset
        X.ns.update(ldd=ldd,ldi=ldi,ldp=ldp,st=st,X=X,UNDEF=UNDEF,NULL=NULL,M64=M64,Fraction=Fraction,CxxThrow=CxxThrow,
            R=R,I=I,radd=radd,rmul=rmul,rsub=rsub,Unreachable=Unreachable)
    def obj(X,p):
        if p is UNDEF: raise Violation('undef','access through an uninitialised pointer')
        if type(p) is not tuple: raise Unsupported('access through integer %r'%(p,))
        o=X.mem.get(p[0])
        if o is None:
            if p[0]==0: raise Violation('null','null pointer access')
            if p[0] in X.gobj: o=X.init_global(p[0])
            else: raise Violation('use-after-free','access to released object %r'%(p,))
        return o
    def concoff(X,off):
        if type(off) is int: return off
        return None
    def ld_slow(X,p,n):
        o=X.obj(p); off=p[1]
        if o.gidx is not None: return X.arr_read(o,X.gpos(o,off,n))
        if o.kind=='fn': raise Violation('bounds','load from function')
        if type(off) is int and o.arr is None:
            if type(o.size) is not int:
                X.oblige('bounds',band(ige(off),ige(isub(o.size,off+n))),'load at %d of %s size %r'%(off,o.name,o.size))
            elif off<0 or off+n>o.size: raise Violation('bounds','load of %d bytes at offset %d of %s object %s of size %d'%(n,off,o.kind,o.name,o.size))
            if o.small is None and n==8:
                v=o.c.get(off)
                if v is not None: return v
                # maybe memset region / misaligned
                for k in range(1,8):
                    if off-k in o.c or off+k in o.c: raise Unsupported('misaligned load')
                return UNDEF
            return X.ld_bytes(o,off,n)
        if o.arr is None: return X.ld_symoff(o,off,n)
        if n!=o.arr.esz: raise Unsupported('element size')
        X.oblige('bounds',band(ige(off),ige(isub(o.size,iadd(off,n)))),'load of %d bytes at offset %r of %s (size %r)'%(n,off,o.name,o.size))
        return X.arr_read(o,X.elem_index(off,n))
    def gpos(X,o,off,n):
        if n!=8 or type(off) is not int or off%8 or not 0<=off//8<len(o.gidx): raise Unsupported('pointer arithmetic on an abstract element')
        return o.gidx[off//8]
    def gptr(X,o,idx):
        """pointer to the element idx of an abstract container"""
        for k,i in enumerate(o.gidx):
            if i==idx: return (o.id,8*k)
        o.gidx.append(idx); return (o.id,8*(len(o.gidx)-1))
    def elem_index(X,off,n):
        idx=idiv_exact(off,n)
        if idx is None:
            # split provable by solver? try off = n*q + r
            raise Unsupported('misaligned symbolic offset %r'%(off,))
        return idx
    def ld_symoff(X,o,off,n):
        """symbolic offset into an object with individual cells: enumerate"""
        if type(o.size) is not int: raise Unsupported('symbolic offset into mixed object')
        X.oblige('bounds',band(ige(off),ige(isub(o.size,iadd(off,n)))),'load of %d bytes at offset %r of %s (size %r)'%(n,off,o.name,o.size))
        for k in sorted(o.c):
            if X.decide(ieq(off,k)): return X.ld_slow((o.id,k),n) if o.small else o.c[k]
        raise Violation('undef','load of uninitialised element')
    def st_symoff(X,o,off,v,n):
        if type(o.size) is not int or o.size>4096: raise Unsupported('symbolic store into mixed object')
        X.oblige('bounds',band(ige(off),ige(isub(o.size,iadd(off,n)))),'store of %d bytes at offset %r of %s (size %r)'%(n,off,o.name,o.size))
        for k in range(0,o.size-n+1,n):
            if X.decide(ieq(off,k)): return X.st_slow((o.id,k),v,n)
        raise Unsupported('misaligned symbolic store')
    def arr_read(X,o,idx):
        ls=o.arr.layers
        for k in range(len(ls)-1,-1,-1):
            l=ls[k]
            if l[0]=='map':
                g,sub=l[1].guard_and_value(idx)
                if g is False: continue
                if g is True or X.decide(g): return LP.sub_val(l[1].val,sub)
                continue
            if l[0]=='w':
                if l[1] is idx or l[1]==idx: return l[2]
                if type(idx) is tuple:
                    e=True
                    for x,y in zip(l[1],idx): e=band(e,ieq(x,y))
                else: e=ieq(l[1],idx)
                if e is False: continue
                if X.decide(e): return l[2]
            elif l[0]=='fill':
                c=band(ige(idx,l[1]),ilt(idx,l[2]))
                if c is False: continue
                if c is True or X.decide(c): return l[3](idx)
            elif l[0]=='base': return l[1](idx)
            else: return UNDEF
        return UNDEF
    def ld_bytes(X,o,off,n):
        sm=o.small or {}
        if off in o.c:
            w=sm.get(off,8)
            if w==n: return o.c[off]
            v=o.c[off]
            if v is UNDEF: return UNDEF
            if n<w and type(v) is int: return v&((1<<(8*n))-1)
            if n<w and v==NULL: return 0
        # assemble from bytes
        r=0;ok=True
        for b in range(n):
            x=X.ld_byte(o,off+b)
            if x is None: return UNDEF
            r|=x<<(8*b)
        return r
    def ld_byte(X,o,off):
        sm=o.small or {}
        for k in range(0,8):
            if off-k in o.c:
                w=sm.get(off-k,8)
                if k<w:
                    v=o.c[off-k]
                    if type(v) is bool: v=int(v)
                    if v is UNDEF: return None
                    if type(v) is tuple and v==NULL: v=0
                    if type(v) is not int: raise Unsupported('byte access of a term')
                    return (v>>(8*k))&255
        return None
    def st_slow(X,p,v,n):
        o=X.obj(p); off=p[1]
        if o.ro: raise Violation('bounds','store to constant object '+o.name)
        if o.gidx is not None: return X.arr_write(o,X.gpos(o,off,n),v)
        if o.kind=='fn': raise Violation('bounds','store to function')
        if type(off) is int and o.arr is None:
            if type(o.size) is not int:
                X.oblige('bounds',band(ige(off),ige(isub(o.size,off+n))),'store at %d of %s size %r'%(off,o.name,o.size))
            elif off<0 or off+n>o.size: raise Violation('bounds','store of %d bytes at offset %d of %s object %s of size %d'%(n,off,o.kind,o.name,o.size))
            if n==8 and o.small is None and off%8==0: o.c[off]=v; return
            if o.small is None: o.small={}
            X.clear_range(o,off,n)
            o.c[off]=v; o.small[off]=n
            return
        if o.arr is None:
            if type(o.size) is int and (o.c or o.size<=256): return X.st_symoff(o,off,v,n)
            X.make_arr(o)
        if n!=o.arr.esz: raise Unsupported('element size')
        X.oblige('bounds',band(ige(off),ige(isub(o.size,iadd(off,n)))),'store of %d bytes at offset %r of %s (size %r)'%(n,off,o.name,o.size))
        X.arr_write(o,X.elem_index(off,n),v)
    def arr_write(X,o,idx,v):
        if o.monitor is not None: return o.monitor(X,o,idx,v)
        ls=[l for l in o.arr.layers if not(l[0]=='w' and l[1]==idx)] if not X.ghost.get('loopstack') else list(o.arr.layers)
        ls.append(('w',idx,v))
        o.arr=Arr(ls)
    def clear_range(X,o,off,n):
        """forget cells overlapping [off,off+n); split partially covered zero/int cells"""
        sm=o.small if o.small is not None else {}
        for k in range(off-7,off+n):
            if k in o.c:
                w=sm.get(k,8)
                if k+w<=off: continue
                v=o.c.pop(k); sm.pop(k,None)
                if k<off or k+w>off+n:
                    if v is UNDEF: continue
                    if type(v) is tuple and v==NULL: v=0
                    if type(v) is bool: v=int(v)
                    if type(v) is not int: 
                        # partially overwritten term: the rest becomes undefined
                        continue
                    if o.small is None: o.small={}; sm=o.small
                    for b in range(w):
                        if not(off<=k+b<off+n): o.c[k+b]=(v>>(8*b))&255; sm[k+b]=1
    def ldn(X,p,n):
        """load integer of n bytes (n<8)"""
        o=X.obj(p); off=p[1]
        if type(off) is int and o.small is not None and o.small.get(off)==n:
            v=o.c[off]
        else: v=X.ld_slow(p,n)
        if type(v) is bool: return int(v)
        return v
    def stn(X,p,v,n):
        o=X.obj(p); off=p[1]
        if type(off) is int and o.small is not None and o.small.get(off)==n and not o.ro: o.c[off]=v
        else: X.st_slow(p,v,n)
    def ldf(X,p):
        v=X.ldn(p,4)
        if type(v) is int: return Fraction(0) if v==0 else ir.float_to_val(__import__('struct').unpack('<f',__import__('struct').pack('<I',v))[0])
        return v
    # memcpy / memset
    def memcpy(X,d,s,n):
        if n==0: return
        if type(n) is I:
            n=X.uval(n,64)
            if X.decide(ieq(n,0)): return
        so=X.obj(s); do=X.obj(d)
        so_,do_=s[1],d[1]
        if type(n) is int and type(so_) is int and type(do_) is int and so.arr is None and do.arr is None:
            for o,off,w in((so,so_,'load'),(do,do_,'store')):
                if type(o.size) is int:
                    if off<0 or off+n>o.size: raise Violation('bounds','%s of %d bytes at offset %d of %s object %s of size %d'%(w,n,off,o.kind,o.name,o.size))
                else: X.oblige('bounds',band(ige(off),ige(isub(o.size,off+n))),'memcpy')
            if do.ro: raise Violation('bounds','store to constant object '+do.name)
            sm=so.small or {}
            items=[]
            if n<=8*len(so.c)+64: rng=[k for k in range(so_-7,so_+n) if k in so.c]
            else: rng=[k for k in so.c if so_-8<k<so_+n]
            for k in rng:
                w=sm.get(k,8)
                if k+w<=so_: continue
                v=so.c[k]
                if k<so_ or k+w>so_+n:
                    if v is UNDEF: continue
                    if v==NULL: v=0
                    if type(v) is not int: raise Unsupported('partial copy of a term')
                    for b in range(w):
                        if so_<=k+b<so_+n: items.append((k+b,1,(v>>(8*b))&255))
                else: items.append((k,w,v))
            # clear destination
            if do.small is not None or any(w!=8 or (k-so_+do_)%8 for k,w,v in items) or n%8 or do_%8:
                if do.small is None: do.small={}
                for k in range(do_,do_+n,8): X.clear_range(do,k,min(8,do_+n-k))
                for k,w,v in items: do.c[k-so_+do_]=v; do.small[k-so_+do_]=w
            else:
                for k in range(do_,do_+n,8): do.c.pop(k,None)
                for k,w,v in items: do.c[k-so_+do_]=v
            return
        # array copy
        X.oblige('bounds',band(ige(so_),ige(isub(so.size,iadd(so_,n)))),'copy source range of %s'%so.name)
        X.oblige('bounds',band(ige(do_),ige(isub(do.size,iadd(do_,n)))),'copy destination range of %s'%do.name)
        if do.ro: raise Violation('bounds','store to constant object '+do.name)
        cnt=X.elem_index(n,8); si=X.elem_index(so_,8); di=X.elem_index(do_,8)
        X.make_arr(do)
        snap=X.snapshot(so)
        sh=isub(si,di)
        do.arr=Arr(do.arr.layers+[('fill',di,iadd(di,cnt),lambda i: snap(iadd(i,sh)))])
    def make_arr(X,o):
        if o.arr is None:
            ls=[('undef',)]
            if o.c:
                for k,v in o.c.items():
                    if k%8 or (o.small or {}).get(k,8)!=8: raise Unsupported('array of small cells')
                    ls.append(('w',k//8,v))
            o.arr=Arr(ls); o.c={}
    def snapshot(X,o):
        if o.arr is None:
            c=dict(o.c); sz=o.size
            def f(i):
                if type(i) is int: return c.get(8*i,UNDEF)
                for k in sorted(c):
                    if X.decide(ieq(i,k//8)): return c[k]
                return UNDEF
            return f
        o2=Obj(o.id,o.size,o.kind,o.name); o2.arr=Arr(list(o.arr.layers))
        return lambda i: X.arr_read(o2,i)
    def memset(X,d,v,n):
        if n==0: return
        if type(n) is I:
            n=X.uval(n,64)
            if X.decide(ieq(n,0)): return
        o=X.obj(d); off=d[1]
        if type(n) is int and type(off) is int and o.arr is None:
            if type(o.size) is int:
                if off<0 or off+n>o.size: raise Violation('bounds','store of %d bytes at offset %d of %s object %s of size %d'%(n,off,o.kind,o.name,o.size))
            else: X.oblige('bounds',band(ige(off),ige(isub(o.size,off+n))),'memset')
            if type(v) is not int: v=UNDEF
            w8=UNDEF if v is UNDEF else int.from_bytes(bytes([v])*8,'little')
            k=off; e=off+n
            if off%8==0 and n%8==0 and o.small is None:
                for k in range(off,e,8): o.c[k]=w8
                return
            if o.small is None: o.small={}
            while k<e:
                w=8 if k%8==0 and k+8<=e else 1
                X.clear_range(o,k,w); o.c[k]=w8 if w==8 else (v if v is UNDEF else v); o.small[k]=w; k+=w
            return
        X.oblige('bounds',band(ige(off),ige(isub(o.size,iadd(off,n)))),'memset of %s'%o.name)
        if v!=0: raise Unsupported('symbolic memset of nonzero')
        X.make_arr(o)
        lo=X.elem_index(off,8); hi=iadd(lo,X.elem_index(n,8))
        o.arr=Arr(o.arr.layers+[('fill',lo,hi,lambda i:0)])
    def fill_range(X,o,lo,hi,fn):
        X.make_arr(o)
        o.arr=Arr(o.arr.layers+[('fill',lo,hi,fn)])
    # ------------------------------------------------------------ integers
    def sgn(X,a,n=64):
        if type(a) is int: return a-(1<<n) if a>>(n-1) else a
        return a
    def uval(X,a,n):
        """unsigned canonical value of an n-bit integer term"""
        if type(a) is int: return a&((1<<n)-1)
        if a is UNDEF: raise Violation('undef','use of an uninitialised integer')
        if type(a) is not I: raise Unsupported('integer expected, got %r'%(a,))
        lo,hi=ibounds(a)
        top=(1<<n)
        if not(lo is not None and lo>=0):
            if not X.entails(ige(a)) and not X.decide(ige(a)):
                a=iadd(a,top); 
                if not X.entails(ige(a)): raise Unsupported('integer range of %r'%a)
        if not(hi is not None and hi<top):
            if not X.entails(ilt(a,top)) and not X.decide(ilt(a,top)): raise Unsupported('integer above 2^%d: %r'%(n,a))
        return a
    def sval(X,a,n):
        if type(a) is int:
            a&=(1<<n)-1
            return a-(1<<n) if a>>(n-1) else a
        if a is UNDEF: raise Violation('undef','use of an uninitialised integer')
        if type(a) is not I: raise Unsupported('integer expected, got %r'%(a,))
        h=1<<(n-1)
        lo,hi=ibounds(a)
        if not(lo is not None and lo>=-h):
            if not X.entails(ige(a,-h)) and not X.decide(ige(a,-h)): raise Unsupported('signed range of %r'%a)
        if not(hi is not None and hi<h):
            if not X.entails(ilt(a,h)) and not X.decide(ilt(a,h)): raise Unsupported('signed range of %r'%a)
        return a
    def ibin(X,op,a,b,n):
        if a is UNDEF or b is UNDEF: return UNDEF
        if n==1: return X.bbin(op,a,b)
        mask=(1<<n)-1
        if type(a) is int and type(b) is int:
            if op=='add': return (a+b)&mask
            if op=='sub': return (a-b)&mask
            if op=='mul': return (a*b)&mask
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&mask if b<n else UNDEF
            if op=='lshr': return a>>b if b<n else UNDEF
            if op=='ashr': return (X.sgn(a,n)>>b)&mask
            if op in('udiv','urem','sdiv','srem'):
                if b==0: raise Violation('div0','integer division by zero')
                if op=='udiv': return a//b
                if op=='urem': return a%b
                sa,sb=X.sgn(a,n),X.sgn(b,n)
                q=abs(sa)//abs(sb)
                if (sa<0)!=(sb<0): q=-q
                return (q if op=='sdiv' else sa-q*sb)&mask
        if type(a) is tuple or type(b) is tuple:
            a=X.p2i(a) if type(a) is tuple else a; b=X.p2i(b) if type(b) is tuple else b
        if type(a) is R or type(b) is R or type(a) is Fraction or type(b) is Fraction: raise Unsupported('integer op on a real')
        a_,b_=X.sgn(a,n),X.sgn(b,n)
        if op=='add': return X.norm(iadd(a_,b_),mask)
        if op=='sub': return X.norm(isub(a_,b_),mask)
        if op=='mul': return X.norm(imul(a_,b_),mask)
        if op=='shl' and type(b) is int: return X.norm(imul(a_,1<<b),mask)
        if op in('udiv','urem','lshr'):
            if op=='lshr':
                if type(b) is not int: raise Unsupported('symbolic shift')
                b=1<<b
            a=X.uval(a,n); b=X.uval(b,n)
            if type(b) is I: X.oblige('div0',ige(b,1),'integer division by zero')
            elif b==0: raise Violation('div0','integer division by zero')
            return X.divmod_(a,b,op!='urem')
        if op in('sdiv','srem','ashr'):
            if op=='ashr':
                if type(b) is not int: raise Unsupported('symbolic shift')
                b=1<<b
            a=X.sval(a,n); b=X.sval(b,n)
            if type(b) is int:
                if b==0: raise Violation('div0','integer division by zero')
                e=idiv_exact(a,b) if b>0 else (None if b==0 else idiv_exact(ineg(a),-b))
                if e is not None and op!='srem': return X.norm(e,mask)
                if e is not None: return 0
            else: X.oblige('div0',ine(b,0),'integer division by zero')
            sy=idivmod_syn(a,b) if type(b) is I else None
            if sy is not None and sy[1]==0: return X.norm(sy[0],mask) if op!='srem' else 0
            if X.decide(ige(a)) and X.decide(ige(b)): return X.divmod_(a,b,op!='srem')
            raise Unsupported('signed division of %r by %r'%(a,b))
        if op=='and' and type(b) is int and b&(b+1)==0:
            return X.divmod_(X.uval(a,n),b+1,False)
        if op=='or' and type(b) is int:
            # x | 1 etc: only if low bits known zero
            raise Unsupported('symbolic or')
        raise Unsupported('symbolic '+op)
    def norm(X,t,mask):
        return t&mask if type(t) is int else t
    def divmod_(X,a,b,want_q):
        """a>=0, b>0"""
        if type(a) is int and type(b) is int: return a//b if want_q else a%b
        s=idivmod_syn(a,b)
        if s is not None:
            q,r=s
            if q!=0 and (type(q) is I or type(r) is I):
                if (r==0) or (X.entails(ige(r)) and X.entails(ilt(r,b))): return q if want_q else r
        if X.entails(ilt(a,b)): return 0 if want_q else a
        # a in [b,2b): common for periodic wrap
        if not want_q or True:
            for k in(1,2):
                if X.entails(ige(a,imul(k,b))) and X.entails(ilt(a,imul(k+1,b))): return k if want_q else isub(a,imul(k,b))
        if X.opts.get('split_mod') and not want_q:
            if X.decide(ilt(a,b)): return a
            for k in range(1,X.opts['split_mod']+1):
                if X.decide(ilt(a,imul(k+1,b))): return isub(a,imul(k,b))
        q=adiv(a,b); r=amod(a,b)
        if type(b) is I:
            X.assume(ieq(a,iadd(imul(q,b),r))); X.assume(ilt(r,b)); X.assume(ige(r)); X.assume(ige(q))
        return q if want_q else r
    def bbin(X,op,a,b):
        if op=='and': return band(a,b)
        if op=='or': return bor(a,b)
        if op=='xor':
            if type(a) is bool: return bnot(b) if a else b
            if type(b) is bool: return bnot(a) if b else a
            return bor(band(a,bnot(b)),band(bnot(a),b))
        a=int(X.decide(a)); b=int(X.decide(b))
        if op=='add' or op=='sub': return bool((a+b)&1)
        if op=='mul': return bool(a&b)
        raise Unsupported('i1 '+op)
    def icmp(X,pred,a,b,n):
        if a is UNDEF or b is UNDEF: return UNDEF
        if n==1:
            if pred in('eq','ne'):
                a=X.decide(a); b=X.decide(b); return (a==b)==(pred=='eq')
            a=int(X.decide(a)); b=int(X.decide(b))
        if type(a) is tuple or type(b) is tuple:
            a=X.p2i(a) if type(a) is tuple else a; b=X.p2i(b) if type(b) is tuple else b
        if type(a) in(R,Fraction) or type(b) in (R,Fraction): raise Unsupported('integer compare of reals')
        if pred in('eq','ne'):
            if type(a) is int and type(b) is int: r=(a==b)
            else:
                d=isub(X.sgn(a,n),X.sgn(b,n))
                lo,hi=ibounds(d)
                if lo is not None and hi is not None and lo>-(1<<n) and hi<(1<<n): r=ieq(d)
                elif X.entails(ige(iadd(d,(1<<n)-1))) and X.entails(ige(isub((1<<n)-1,d))): r=ieq(d)
                else: r=ieq(X.uval(a,n),X.uval(b,n))
            return r if pred=='eq' else bnot(r)
        if pred[0]=='u': a=X.uval(a,n); b=X.uval(b,n)
        else: a=X.sval(a,n); b=X.sval(b,n)
        k=pred[1:]
        return {'lt':ilt,'le':ile,'gt':igt,'ge':ige}[k](a,b)
    def p2i(X,p):
        if p==NULL: return 0
        if p is UNDEF: return UNDEF
        if type(p) is not tuple: return p
        base=iatom(atom('sym','base%d'%p[0],1<<13,1<<46,'base%d'%p[0]))
        return iadd(base,X.sgn(p[1]))
    def i2p(X,v):
        if type(v) is int and v==0: return NULL
        if type(v) is tuple: return v
        if type(v) is I:
            bs=[m for m in v.d if len(m)==1 and (ATOMS[m[0]].name or '').startswith('base') and v.d[m]==1]
            if len(bs)==1:
                off=isub(v,mkI({bs[0]:1})); return (int(ATOMS[bs[0][0]].name[4:]),off)
        raise Unsupported('inttoptr %r'%(v,))
    def pcmp(X,pred,a,b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is not tuple or type(b) is not tuple: return X.icmp(pred,X.p2i(a),X.p2i(b),64)
        if a[0]==b[0]:
            x,y=a[1],b[1]
            if pred=='eq': return ieq(x,y)
            if pred=='ne': return ine(x,y)
            k=pred[1:]
            return {'lt':ilt,'le':ile,'gt':igt,'ge':ige}[k](x,y)
        if pred=='eq': return False
        if pred=='ne': return True
        return X.icmp(pred,X.p2i(a),X.p2i(b),64)
    def gep(X,p,k):
        if p is UNDEF: return UNDEF
        if type(p) is not tuple: return X.i2p(iadd(p,k))
        return (p[0],iadd(p[1],k))
    def simp(X,t):
        if type(t) is I and X.csub: return subst_i(t,X.csub)
        return t
    def concretize(X,t):
        """fork until the integer term has a concrete value (bounded mode)"""
        t=X.simp(t)
        for _ in range(200):
            if type(t) is int: return t
            v=X.model_int(t)
            if X.decide(ieq(t,v)): return v
        raise Unsupported('concretize')
    def model_int(X,t):
        key=('mi',X.pnode,t.id)
        if key in X.qcache: return X.qcache[key]
        X.sync(); X.solver.push()
        zt=X.zc.I(t)
        for f in X.zc.facts: X.solver.add(f)
        for ax in X.axioms:
            for f in ax(X,None): X.solver.add(X.zB(f))
        r=X.solver.check()
        if r!=z3.sat: X.solver.pop(); raise Unsupported('no model')
        v=X.solver.model().eval(zt,model_completion=True).as_long()
        X.solver.pop()
        X.qcache[key]=v
        return v
    def gepi(X,p,i,s):
        if type(i) is I and X.opts.get('conc'): i=X.concretize(i)
        if type(i) is int:
            if i>>63: i-=1<<64
            if p is UNDEF: return UNDEF
            o=p[1]
            return (p[0],o+i*s) if type(o) is int else (p[0],iadd(o,i*s))
        if i is UNDEF: return UNDEF
        if type(i) is not I: raise Unsupported('gep index %r'%(i,))
        return (p[0],iadd(p[1],imul(i,s)))
    # ------------------------------------------------------------ reals
    def fop(X,op,a,b):
        ta,tb=type(a),type(b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if ta is LP.Poison or tb is LP.Poison: return LP.POISON
        if ta is float or tb is float:
            fa=float(a) if ta in(float,Fraction) else None; fb=float(b) if tb in (float,Fraction) else None
            if fa is None or fb is None: raise Unsupported('infinity arithmetic')
            r=fa+fb if op=='fadd' else fa-fb if op=='fsub' else fa*fb if op=='fmul' else fa/fb
            return ir.float_to_val(r)
        if ta is int: a=Fraction(0) if a==0 else X.bad()
        if tb is int: b=Fraction(0) if b==0 else X.bad()
        if X.opts.get('havoc'): X.fresh+=1; return rsym('hv%d'%X.fresh)
        if X.opts.get('round'):
            # any rounding: nothing is known of the result, except where the operation is exact
            z=Fraction(0); one=Fraction(1)
            if op=='fadd' and ta is Fraction and a==z: return b
            if op in('fadd','fsub') and tb is Fraction and b==z: return a
            if op=='fsub' and a is b: return z
            if op=='fmul' and (a is one or (ta is Fraction and a==one)): return b
            if op in('fmul','fdiv') and tb is Fraction and b==one: return a
            if not(ta is Fraction and tb is Fraction and (op!='fdiv' or b!=0)) or not X.exact(op,a,b): X.fresh+=1; return rsym('rnd%d'%X.fresh)
        if op=='fadd': return radd(a,b)
        if op=='fsub': return rsub(a,b)
        if op=='fmul': return rmul(a,b)
        if op=='fdiv':
            if tb is Fraction:
                if b==0: return X.div0(a)
                return rmul(1/b,a)
            if X.opts.get('divcheck',True): X.nonzero(b)
            return rdiv(a,b)
        raise Unsupported(op)
    def exact(X,op,a,b):
        r=a+b if op=='fadd' else a-b if op=='fsub' else a*b if op=='fmul' else a/b
        try: return Fraction(float(r))==r
        except OverflowError: return False
    def div0(X,a):
        if X.opts.get('divcheck',True):
            raise Violation('fdiv0','floating point division by zero')
        return UNDEF
    def bad(X): raise Unsupported('integer bits as double')
    def nonzero(X,b):
        h=X.opts.get('nonzero')
        if h is not None and h(X,b): return
        if pit_equal(b,Fraction(0)): raise Violation('fdiv0','division by a term that is identically zero')
        X.oblige('fdiv0',rne(b,Fraction(0)),'division by zero')
    def fcmp(X,pred,a,b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is float or type(b) is float:
            fa=float(a) if type(a) in(float,Fraction) else None; fb=float(b) if type(b) in (float,Fraction) else None
            if fa is None or fb is None:
                # comparisons of a finite real with +-inf
                def inf(x): return type(x) is float
                s=(1 if (a if inf(a) else b)>0 else -1)
                lt=(s>0) if inf(b) else (s<0)
                if pred in('ord',): return True
                if pred in('uno',): return False
                k=pred[1:]
                return {'lt':lt,'le':lt,'gt':not lt,'ge':not lt,'eq':False,'ne':True}[k]
            if pred=='uno': return fa!=fa or fb!=fb
            if pred=='ord': return fa==fa and fb==fb
            k=pred[1:]
            return {'lt':fa<fb,'le':fa<=fb,'gt':fa>fb,'ge':fa>=fb,'eq':fa==fb,'ne':fa!=fb}[k]
        if pred=='ord' or pred=='true': return True
        if pred=='uno' or pred=='false': return False
        if type(a) is int: a=Fraction(a)
        if type(b) is int: b=Fraction(b)
        k=pred[1:]
        if k=='lt': return rlt(a,b)
        if k=='le': return rle(a,b)
        if k=='gt': return rlt(b,a)
        if k=='ge': return rle(b,a)
        if k=='eq': return req(a,b)
        return rne(a,b)
    def r2i(X,v,n,signed=False):
        if v is UNDEF: return UNDEF
        if type(v) is Fraction:
            r=int(v)
            if signed: 
                if not -(1<<(n-1))<=r<(1<<(n-1)): raise Violation('fpcast','float to integer conversion out of range')
            elif not 0<=r<(1<<n): raise Violation('fpcast','float to integer conversion out of range')
            return r&((1<<n)-1)
        if type(v) is float: raise Violation('fpcast','conversion of non-finite value')
        if v.op=='i2r':
            if signed: X.oblige('fpcast',band(ige(v.a,-(1<<(n-1))),ilt(v.a,1<<(n-1))),'float to integer conversion out of range')
            else: X.oblige('fpcast',band(ige(v.a),ilt(v.a,1<<n)),'float to integer conversion out of range')
            return v.a
        X.oblige('fpcast',band(rlt(Fraction(-(1<<(n-1)) if signed else -1),v),rlt(v,Fraction(1<<(n-1 if signed else n)))),'float to integer conversion out of range')
        if X.decide(rle(Fraction(0),v)): return afloor(v)
        return aceil(v)
    def i2r(X,v,n,signed):
        if v is UNDEF: return UNDEF
        if type(v) is bool: return Fraction(int(v))
        if type(v) is B: return Fraction(int(X.decide(v)))
        v=X.sval(v,n) if signed else X.uval(v,n)
        return Fraction(v) if type(v) is int else r_of_int(v)
    # casts
    def trunc(X,v,n,fr):
        if v is UNDEF: return UNDEF
        if n==1:
            if type(v) is int: return bool(v&1)
            if type(v) in(bool,B): return v
            r=X.divmod_(X.uval(v,fr),2,False)
            return ieq(r,1)
        if type(v) is int: return v&((1<<n)-1)
        if type(v) is I: return X.uval(v,n)
        raise Unsupported('trunc')
    def zext(X,v,fr):
        if v is UNDEF: return UNDEF
        if fr==1:
            if type(v) is B: return int(X.decide(v))
            return int(v)
        return v if type(v) is int else X.uval(v,fr)
    def sext(X,v,fr,n):
        if v is UNDEF: return UNDEF
        if fr==1:
            if type(v) is B: v=X.decide(v)
            return ((1<<n)-1) if v else 0
        if type(v) is int: return v if not v>>(fr-1) else (v-(1<<fr))&((1<<n)-1)
        return X.sval(v,fr)
    def select(X,c,a,b):
        if a is b: return a
        if c is True: return a
        if c is False: return b
        if c is UNDEF: raise Violation('undef','select on an uninitialised value')
        return a if X.decide(c) else b
    # ------------------------------------------------------------ globals
    def gaddr(X,name):
        name=X.m.aliases.get(name,name)
        if name in X.globals: return X.globals[name]
        i=X.gnext; X.gnext-=1
        X.globals[name]=(i,0); X.gobj[i]=name
        return (i,0)
    def init_global(X,i):
        name=X.gobj[i]
        if name in X.m.funcs or name in X.m.decls:
            o=Obj(i,1,'fn',name); X.mem[i]=o; return o
        t,init,const=X.m.globals[name]
        o=Obj(i,X.m.size(t) if t.k!='opaque' else 8,'global',name); X.mem[i]=o
        if init is not None: X.init_val(o,0,t,init)
        o.ro=const
        return o
    def init_val(X,o,off,t,v):
        m=X.m; t=m.resolve(t)
        k=v[0]
        if k=='z':
            if m.size(t): X.memset((o.id,off),0,m.size(t))
            return
        if k=='u': return
        if t.k=='arr':
            es=m.size(t.elems)
            if k=='s':
                if o.small is None: o.small={}
                for j,b in enumerate(v[1]): o.c[off+j]=b; o.small[off+j]=1
                return
            for j,(et,ev) in enumerate(v[1]): X.init_val(o,off+j*es,et,ev)
            return
        if t.k=='struct':
            for (et,ev),eo in zip(v[1],m.offsets(t)): X.init_val(o,off+eo,et,ev)
            return
        X.st_slow((o.id,off),X.const(t,v),m.size(t))
    def const(X,t,v):
        k=v[0]
        if k=='c': return NULL if v[1] is None else v[1]
        if k=='g': return X.gaddr(v[1])
        if k=='u': return UNDEF
        if k=='z':
            t=X.m.resolve(t)
            if t.k=='ptr': return NULL
            if t.k in FP: return Fraction(0)
            if t.k=='int': return 0 if t.n>1 else False
            if t.k=='struct': return tuple(X.const(e,('z',e)) for e in t.elems)
            if t.k in('arr','vec'): return tuple(X.const(t.elems,('z',t.elems)) for _ in range(t.n))
        if k=='gep':
            bt,ops=v[1],v[2]
            p=X.const(*ops[0])
            return X.gep(p,X.gep_const(bt,[X.const(*o) for o in ops[1:]]))
        if k=='cast':
            return X.const(v[2],v[3])
        if k=='agg':
            return tuple(X.const(et,ev) for et,ev in v[1])
        raise Unsupported('const %r'%(v,))
    def gep_const(X,bt,idx):
        m=X.m
        off=X.sgn(idx[0])*m.size(bt)
        t=m.resolve(bt)
        for i in idx[1:]:
            if t.k=='struct': off+=m.offsets(t)[i]; t=m.resolve(t.elems[i])
            else: off+=X.sgn(i)*m.size(t.elems); t=m.resolve(t.elems)
        return off
    # ------------------------------------------------------------ calls
    def find_hook(X,name):
        d=X.m.demangled.get(name,name[1:])
        for p,f in X.hooks:
            if p.search(d): return f
        return None
    def getfn(X,name):
        """python callable for an IR function"""
        name=X.m.aliases.get(name,name)
        f=X.fnname.get(name)
        if f is not None: return f
        d=X.m.demangled.get(name,name[1:])
        h=X.find_hook(name)
        if h is not None:
            X.rawname[d]=name
            def f(X_,*a,_h=h,_d=d): return _h(X,_d,*a)
            if not getattr(h,'scope',False): X.assumed.add(d if len(d)<160 else d[:157]+'...')
        elif name in X.m.funcs:
            fn=X.m.funcs[name]; ident='F%d'%len(X.fnname)
            f=compile_func(X,fn,ident)
            if 'intp::' in d: X.funcs_used.add(d)
        else:
            def f(X_,*a,_d=d): raise Unsupported('external function '+_d)
        X.fnname[name]=f
        return f
    def raw(X,d,*a):
        """the real body of a hooked function (demangled name d)"""
        f=X.rawfn.get(d)
        if f is None:
            fn=X.m.funcs[X.rawname[d]]
            f=X.rawfn[d]=compile_func(X,fn,'G%d'%len(X.rawfn))
            if 'intp::' in d: X.funcs_used.add(d)
        return f(X,*a)
    def call(X,name,*args):
        if not name.startswith('@'): name='@'+name
        return X.getfn(name)(X,*args)
    def icall(X,p,*args):
        if p is UNDEF: raise Violation('undef','call through uninitialised pointer')
        nm=X.gobj.get(p[0])
        if nm is None: raise Violation('null','call through bad pointer %r'%(p,))
        return X.getfn(nm)(X,*args)
    def alloca(X,size,cnt=1):
        i=X.next; X.next=i+1
        n=size if cnt==1 else (size*cnt if type(cnt) is int else imul(size,cnt))
        o=Obj(i,n,'stack',''); X.mem[i]=o
        return (i,0)
    def byval(X,p,size):
        q=X.alloca(size); X.memcpy(q,p,size); return q
    def tick(X):
        X.steps+=1
        if X.steps>X.steplimit: raise Unsupported('step limit')
    # cut loops (filled in by loops.py)

# ---------------------------------------------------------------- code generation
def compile_func(X,f,ident):
    m=X.m; ir.ensure_blocks(m,f)
    nums={b:i for i,b in enumerate(f.order)}
    names={}
    def var(n):
        v=names.get(n)
        if v is None: v=names[n]='v%d'%len(names)
        return v
    ns=X.ns
    def konst(o):
        k='K%d'%len(X.konst); X.konst[k]=o; ns[k]=o; return k
    def val(t,v):
        k=v[0]
        if k=='r': return var(v[1])
        if k=='c':
            c=v[1]
            if c is None: return 'NULL'
            if c is True or c is False: return str(c)
            if type(c) is int: return str(c)
            return konst(c)
        if k=='g':
            return konst(X.gaddr(v[1]))
        if k=='u': return 'UNDEF'
        if k=='md': return 'None'
        if k=='bin':
            return 'X.ibin(%r,%s,%s,%d)'%(v[1],val(v[2],v[3]),val(v[2],v[4]),v[2].n)
        c=X.const(t,v)
        return konst(c)
    lines=[]
    allocs=[]
    preds={b:[] for b in f.order}
    cutset=set();loops={}
    if X.autocut is not None and X.autocut.search(m.demangled.get(f.name,f.name)):
        loops=find_loops(f)
        if not X.opts.get('cutall'): loops={h:b for h,b in loops.items() if not static_trip(f.blocks[h])}     # loops that run a constant number of times are simply executed
        cutset=set(loops)
    def phi_copy(frm,to):
        b=f.blocks[to]
        if to in cutset:
            # values go through the loop-cut protocol
            vals=[val(p[2],p[3][frm]) for p in b.phis]
            tn='(%s)'%''.join(v+',' for v in vals)
            nm=tuple(p[1] for p in b.phis)
            back=frm in loops[to]
            dep=sum(1 for h in loops if h!=to and to in loops[h])
            r='X.loop_back(%r,%r,%s)'%((f.name,to),nm,tn) if back else 'X.loop_entry(%r,%r,%s,%d)'%((f.name,to),nm,tn,dep)
            if b.phis: return '%s=%s'%(''.join(var(p[1])+',' for p in b.phis),r)
            return r
        if not b.phis: return None
        L=[];Rr=[]
        for p in b.phis:
            v=val(p[2],p[3][frm])
            if var(p[1])!=v: L.append(var(p[1])); Rr.append(v)
        if not L: return None
        return '%s=%s'%(','.join(L),','.join(Rr))
    def jump(out,ind,frm,to):
        for h in sorted((h for h in cutset if frm in loops[h] and to not in loops[h]),key=lambda h:len(loops[h])):
            out.append(ind+'X.loop_exit(%r)'%((f.name,h),))
        c=phi_copy(frm,to)
        if c: out.append(ind+c)
        if nums[to]<=nums[frm]: out.append(ind+'X.tick()')
        out.append(ind+'b=%d'%nums[to])
    code={}
    for bn in f.order:
        b=f.blocks[bn]; out=[]; ind=''
        term=False
        for ins in b.ins:
            k=ins[0]
            if k=='bin':
                _,r,op,t,a,c=ins
                if t.k=='vec': out.append('raise X.unsup("vector")'); continue
                x,y=val(t,a),val(t,c); r=var(r)
                if t.k in FP:
                    if op=='fadd': out.append('%s=%s+%s if type(%s) is Fraction and type(%s) is Fraction else X.fop("fadd",%s,%s)'%(r,x,y,x,y,x,y))
                    elif op=='fmul': out.append('%s=%s*%s if type(%s) is Fraction and type(%s) is Fraction else X.fop("fmul",%s,%s)'%(r,x,y,x,y,x,y))
                    elif op=='fsub': out.append('%s=%s-%s if type(%s) is Fraction and type(%s) is Fraction else X.fop("fsub",%s,%s)'%(r,x,y,x,y,x,y))
                    elif op=='frem': out.append('%s=X.getfn("@fmod")(X,%s,%s)'%(r,x,y))
                    else: out.append('%s=X.fop(%r,%s,%s)'%(r,op,x,y))
                elif t.n==64 and op in('add','sub','mul'):
                    o={'add':'+','sub':'-','mul':'*'}[op]
                    tests=[z for z in (x,y) if not z.lstrip('-').isdigit()]
                    cond=' and '.join('type(%s) is int'%z for z in tests) or 'True'
                    out.append('%s=(%s%s%s)&M64 if %s else X.ibin(%r,%s,%s,64)'%(r,x,o,y,cond,op,x,y))
                else: out.append('%s=X.ibin(%r,%s,%s,%d)'%(r,op,x,y,t.n))
            elif k=='icmp':
                _,r,p,t,a,c=ins; x,y=val(t,a),val(t,c); r=var(r)
                if t.k=='ptr':
                    if p=='eq': out.append('%s=True if %s==%s else X.pcmp("eq",%s,%s)'%(r,x,y,x,y))
                    elif p=='ne': out.append('%s=False if %s==%s else X.pcmp("ne",%s,%s)'%(r,x,y,x,y))
                    else: out.append('%s=X.pcmp(%r,%s,%s)'%(r,p,x,y))
                elif t.n>1 and p in('eq','ne','ult','ule','ugt','uge'):
                    o={'eq':'==','ne':'!=','ult':'<','ule':'<=','ugt':'>','uge':'>='}[p]
                    tests=[z for z in (x,y) if not z.lstrip('-').isdigit()]
                    cond=' and '.join('type(%s) is int'%z for z in tests) or 'True'
                    out.append('%s=%s%s%s if %s else X.icmp(%r,%s,%s,%d)'%(r,x,o,y,cond,p,x,y,t.n))
                else: out.append('%s=X.icmp(%r,%s,%s,%d)'%(r,p,x,y,t.n))
            elif k=='fcmp':
                _,r,p,t,a,c=ins; out.append('%s=X.fcmp(%r,%s,%s)'%(var(r),p,val(t,a),val(t,c)))
            elif k=='fneg':
                _,r,t,a=ins; out.append('%s=X.fop("fsub",Fraction(0),%s)'%(var(r),val(t,a)))
            elif k=='cast':
                _,r,op,t,a,tt=ins; x=val(t,a); r=var(r)
                if op=='zext':
                    out.append('%s=X.zext(%s,%d)'%(r,x,t.n) if t.n==1 else '%s=%s if type(%s) is int else X.zext(%s,%d)'%(r,x,x,x,t.n))
                elif op=='sext': out.append('%s=X.sext(%s,%d,%d)'%(r,x,t.n,tt.n))
                elif op=='trunc': out.append('%s=X.trunc(%s,%d,%d)'%(r,x,tt.n,t.n))
                elif op in('uitofp','sitofp'): out.append('%s=X.i2r(%s,%d,%r)'%(r,x,t.n,op=='sitofp'))
                elif op in('fptoui','fptosi'): out.append('%s=X.r2i(%s,%d,%r)'%(r,x,tt.n,op=='fptosi'))
                elif op=='ptrtoint': out.append('%s=X.p2i(%s)'%(r,x))
                elif op=='inttoptr': out.append('%s=X.i2p(%s)'%(r,x))
                else: out.append('%s=%s'%(r,x))
            elif k=='alloca':
                _,r,t,c=ins; out.append('%s=X.alloca(%d,%s)'%(var(r),m.size(t),val(ir.INT(64),c))); allocs.append(var(r))
            elif k=='load':
                _,r,t,p=ins; t=m.resolve(t); q=val(ir.PTR,p); r=var(r)
                if t.k=='double': out.append('%s=ldd(%s)'%(r,q))
                elif t.k=='ptr': out.append('%s=ldp(%s)'%(r,q))
                elif t.k=='int' and t.n==64: out.append('%s=ldi(%s)'%(r,q))
                elif t.k=='int' and t.n==1: out.append('%s=X.trunc(X.ldn(%s,1),1,8)'%(r,q))
                elif t.k=='int' and t.n<64: out.append('%s=X.ldn(%s,%d)'%(r,q,(t.n+7)//8))
                elif t.k=='float': out.append('%s=X.ldf(%s)'%(r,q))
                else: out.append('%s=X.ldagg(%s,%s)'%(r,q,konst(t)))
            elif k=='store':
                _,t,v,p=ins; t=m.resolve(t); q=val(ir.PTR,p); x=val(t,v)
                if t.k in('double','ptr') or (t.k=='int' and t.n==64): out.append('st(%s,%s)'%(q,x))
                elif t.k=='int' and t.n<64: out.append('X.stn(%s,%s,%d)'%(q,x,(t.n+7)//8))
                elif t.k=='float': out.append('X.stn(%s,%s,4)'%(q,x))
                else: out.append('X.stagg(%s,%s,%s)'%(q,konst(t),x))
            elif k=='gep':
                _,r,bt,p,idx=ins; q=val(ir.PTR,p); r=var(r)
                off=0; dyn=[]
                t=None
                for j,(it,iv) in enumerate(idx):
                    if j==0: sz=m.size(bt); t=m.resolve(bt); cidx=iv
                    elif t.k=='struct':
                        off+=m.offsets(t)[iv[1]]; t=m.resolve(t.elems[iv[1]]); continue
                    else: sz=m.size(t.elems); t=m.resolve(t.elems)
                    if iv[0]=='c': off+=X.sgn(iv[1],it.n)*sz
                    else: dyn.append((val(it,iv),sz,it.n))
                for x,sz,n in dyn:
                    if n!=64: x='X.sext(%s,%d,64)'%(x,n)
                    q='X.gepi(%s,%s,%d)'%(q,x,sz)
                if dyn:
                    if off: q='X.gep(%s,%d)'%(q,off)
                    out.append('%s=%s'%(r,q))
                elif off==0: out.append('%s=%s'%(r,q))
                else: out.append('%s=(%s[0],%s[1]+%d) if type(%s[1]) is int else X.gep(%s,%d)'%(r,q,q,off,q,q,off))
            elif k=='br':
                jump(out,'',bn,ins[1]); term=True
            elif k=='cbr':
                _,c,a,b2=ins; c=val(ir.INT(1),c)
                out.append('if X.decide(%s):'%c if not c in('True','False') else 'if %s:'%c)
                jump(out,' ',bn,a); out.append('else:'); jump(out,' ',bn,b2); term=True
            elif k=='switch':
                _,t,v,d,cs=ins; x=val(t,v)
                out.append('sw=%s'%x); first=True
                for cv,cl in cs:
                    out.append(('if' if first else 'elif')+' X.decide(X.icmp("eq",sw,%d,%d)):'%(int(cv),t.n)); first=False
                    jump(out,' ',bn,cl)
                if first: jump(out,'',bn,d)
                else: out.append('else:'); jump(out,' ',bn,d)
                term=True
            elif k=='ret':
                out.append('__FREE__')
                out.append('return' if ins[1] is None else 'return %s'%val(ins[1],ins[2])); term=True
            elif k=='call':
                _,r,rt,cal,args,nb,ub=ins
                av=[]
                for t,v,at in args:
                    x=val(t,v)
                    if 'byval' in at: x='X.byval(%s,%d)'%(x,m.size(at['byval']))
                    av.append(x)
                if cal[0]=='g':
                    dn=cal[1]
                    if dn.startswith(('@llvm.lifetime','@llvm.dbg','@llvm.experimental.noalias','@llvm.assume','@llvm.prefetch')): 
                        call=None
                    else: call='CALL%s(X,%s)'%(fnref(X,dn),','.join(av))
                elif cal[0]=='r': call='X.icall(%s,%s)'%(var(cal[1]),','.join(av))
                else: call='raise X.unsup("callee")'
                if call:
                    asg='%s=%s'%(var(r),call) if r else call
                    if nb is None: out.append(asg)
                    else:
                        out.append('try: %s'%asg); out.append('except CxxThrow as ex:'); out.append(' X.exc=ex')
                        jump(out,' ',bn,ub); out.append('else:'); jump(out,' ',bn,nb)
                elif nb is not None: jump(out,'',bn,nb)
                if nb is not None: term=True
            elif k=='select':
                _,r,c,t,a,b2=ins; out.append('%s=X.select(%s,%s,%s)'%(var(r),val(ir.INT(1),c),val(t,a),val(t,b2)))
            elif k=='extractvalue':
                _,r,t,v,idx=ins; x=val(t,v)
                out.append('%s=%s%s'%(var(r),x,''.join('[%d]'%i for i in idx)))
            elif k=='insertvalue':
                _,r,t,v,et,e,idx=ins
                out.append('%s=X.insval(%s,%s,%s,%r)'%(var(r),konst(m.resolve(t)),val(t,v),val(et,e),tuple(idx)))
            elif k=='landingpad': out.append('%s=(X.exc,0)'%var(ins[1])) if ins[1] else None
            elif k=='resume': out.append('raise X.exc'); term=True
            elif k=='unreachable': out.append('raise Unreachable()'); term=True
            elif k=='freeze': out.append('%s=%s'%(var(ins[1]),val(ins[2],ins[3])))
            elif k=='atomicrmw':
                _,r,op,t,p,v=ins
                out.append('%s=X.atomicrmw(%r,%s,%s,%d)'%(var(r),op,val(ir.PTR,p),val(t,v),m.size(t)))
            elif k=='asm': pass
            else: out.append('raise X.unsup(%r)'%(str(ins)[:100],)); 
        code[bn]=out
    src=['def %s(X,%s*_va):'%(ident,''.join(var(a[0])+',' for a in f.args))]
    free=['X.freestk(%s)'%','.join(allocs)] if allocs else []
    def emit(bs,ind):
        if len(bs)<=2:
            for j,bn in enumerate(bs):
                if len(bs)==1 : pre=ind; 
                else:
                    src.append(ind+('if b==%d:'%nums[bn] if j==0 else 'else:')); pre=ind+' '
                body=code[bn] or ['pass']
                for l in body:
                    if l=='__FREE__':
                        for z in free: src.append(pre+z)
                    else: src.append(pre+l)
            return
        h=len(bs)//2
        src.append(ind+'if b<%d:'%nums[bs[h]]); emit(bs[:h],ind+' ')
        src.append(ind+'else:'); emit(bs[h:],ind+' ')
    if allocs:
        # allocas execute in the entry block only
        pass
    src.append(' b=0'); src.append(' while 1:')
    emit(f.order,'  ')
    text='\n'.join(src)
    try: exec(compile(text,ident+':'+f.dname[:80],'exec'),ns)
    except SyntaxError as e:
        raise VMError('codegen: %s\n%s'%(e,text[:3000]))
    return ns[ident]

def fnref(X,name):
    k=X.fidx.get(name)
    if k is None:
        k=X.fidx[name]=len(X.fidx)
        def stub(X_,*a,_n=name,_k='CALL%d'%k):
            fn=X.getfn(_n)
            X.ns[_k]=fn
            return fn(X_,*a)
        X.ns['CALL%d'%k]=stub
    return k

def _freestk(X,*ps):
    for p in ps: X.mem.pop(p[0],None)
VM.freestk=_freestk
def _unsup(X,s): return Unsupported(s)
VM.unsup=_unsup
def _insval(X,t,v,e,idx):
    if v is UNDEF: v=tuple(UNDEF for _ in (t.elems if t.k=='struct' else range(t.n)))
    i=idx[0]
    if len(idx)>1:
        st=X.m.resolve(t.elems[i] if t.k=='struct' else t.elems)
        e=_insval(X,st,v[i],e,idx[1:])
    return v[:i]+(e,)+v[i+1:]
VM.insval=_insval
def _ldt(X,p,t):
    t=X.m.resolve(t)
    if t.k=='double': return X.ns['ldd'](p)
    if t.k=='ptr': return X.ns['ldp'](p)
    if t.k=='int' and t.n==64: return X.ns['ldi'](p)
    if t.k=='int' and t.n==1: return X.trunc(X.ldn(p,1),1,8)
    if t.k=='int' and t.n<64: return X.ldn(p,(t.n+7)//8)
    if t.k=='float': return X.ldf(p)
    if t.k=='struct': return tuple(_ldt(X,X.gep(p,o),e) for e,o in zip(t.elems,X.m.offsets(t)))
    if t.k in('arr','vec'): return tuple(_ldt(X,X.gep(p,i*X.m.size(t.elems)),t.elems) for i in range(t.n))
    if t.k=='int': return X.ld_bytes(X.obj(p),p[1],X.m.size(t))
    raise Unsupported('load '+t.k)
def _stt(X,p,t,v):
    t=X.m.resolve(t)
    if t.k=='struct':
        for i,(e,o) in enumerate(zip(t.elems,X.m.offsets(t))): _stt(X,X.gep(p,o),e,v if v is UNDEF else v[i])
    elif t.k in('arr','vec'):
        for i in range(t.n): _stt(X,X.gep(p,i*X.m.size(t.elems)),t.elems,v if v is UNDEF else v[i])
    else: X.st_slow(p,v,X.m.size(t)) if not(t.k=='int' and t.n<64) else X.stn(p,v,(t.n+7)//8)
VM.ldagg=_ldt; VM.stagg=_stt; VM.ldt=_ldt
def _atomicrmw(X,op,p,v,n):
    old=X.ldn(p,n) if n<8 else X.ns['ldi'](p)
    new={'add':lambda:X.ibin('add',old,v,8*n),'sub':lambda:X.ibin('sub',old,v,8*n),'xchg':lambda:v,'or':lambda:X.ibin('or',old,v,8*n)}[op]()
    X.stn(p,new,n) if n<8 else X.ns['st'](p,new)
    return old
VM.atomicrmw=_atomicrmw

def static_trip(b):
    """the header compares a counter with a small constant"""
    t=b.ins[-1]
    if t[0]!='cbr': return False
    for i in b.ins:
        if i[0]=='icmp' and i[1]==(t[1][1] if type(t[1]) is tuple else t[1]):
            ph={p[1] for p in b.phis}|{j[1] for j in b.ins if j[0]=='load'}
            x,y=i[4],i[5]
            return type(x) is tuple and x[0]=='r' and x[1] in ph and type(y) is tuple and y[0]=='c' and type(y[1]) is int and 0<=y[1]<=24
    return False
def find_loops(f):
    """natural loops: header -> set of blocks (labels)"""
    succ={}
    for bn in f.order:
        t=f.blocks[bn].ins[-1]
        if t[0]=='br': s=[t[1]]
        elif t[0]=='cbr': s=[t[2],t[3]]
        elif t[0]=='switch': s=[t[3]]+[c[1] for c in t[4]]
        elif t[0]=='call' and t[5]: s=[t[5],t[6]]
        else: s=[]
        succ[bn]=s
    pred={b:[] for b in f.order}
    for b,ss in succ.items():
        for s in ss: pred[s].append(b)
    # dominators (iterative)
    order=[];seen=set()
    def dfs(b):
        st=[(b,iter(succ[b]))]; seen.add(b)
        while st:
            x,it=st[-1]
            for y in it:
                if y not in seen: seen.add(y); st.append((y,iter(succ[y]))); break
            else: order.append(x); st.pop()
    dfs(f.order[0]); rpo=order[::-1]
    dom={b:set(rpo) for b in rpo}; dom[f.order[0]]={f.order[0]}
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[dom[p] for p in pred[b] if p in dom]
            n=set.intersection(*ps)|{b} if ps else {b}
            if n!=dom[b]: dom[b]=n; ch=True
    loops={}
    for b in rpo:
        for s in succ[b]:
            if s in dom[b]:
                body=loops.setdefault(s,{s}); st=[b]
                while st:
                    x=st.pop()
                    if x not in body: body.add(x); st+=pred[x]
    return loops

# ---------------------------------------------------------------- default hooks (assumed contracts on the environment)
def h_new(X,d,n,*a):
    if type(n) is I: n=X.uval(n,64)
    return X.new(n,'heap','heap%d'%X.next)
def h_delete(X,d,p,*a):
    if p==NULL: return
    o=X.obj(p)
    if o.kind!='heap' or p[1]!=0: raise Violation('free','bad free of %r'%(p,))
    X.mem.pop(p[0])
def h_posix_memalign(X,d,pp,al,n):
    p=X.new(X.uval(n,64) if type(n) is I else n,'heap','heap%d'%X.next); X.ns['st'](pp,p); return 0
def h_malloc(X,d,n): return X.new(X.uval(n,64) if type(n) is I else n,'heap','heap%d'%X.next)
def h_aligned_alloc(X,d,al,n): return X.new(X.uval(n,64) if type(n) is I else n,'heap','heap%d'%X.next)
def h_memcpy(X,d,a,b,n,*r): X.memcpy(a,b,n); return a
def h_memset(X,d,a,v,n,*r): X.memset(a,v,n); return a
def h_nop(X,d,*a): return None
def h_min(u,mx):
    def h(X,d,a,b,*r):
        if a is UNDEF or b is UNDEF: return UNDEF
        p=('u' if u else 's')+'lt'
        c=X.icmp(p,a,b,64)
        if mx: a,b=b,a
        return X.select(c,a,b)
    return h
def h_usubsat(X,d,a,b):
    if X.decide(X.icmp('ult',a,b,64)): return 0
    return X.ibin('sub',a,b,64)
def h_fabs(X,d,a):
    if a is UNDEF: return UNDEF
    if isc(a): return abs(a)
    return a if X.decide(rle(Fraction(0),a)) else rneg(a)
def h_ceil(X,d,a):
    import math
    if a is UNDEF: return UNDEF
    if isc(a): return Fraction(math.ceil(a))
    if type(a) is float: return a
    if a.op=='i2r': return a
    lo=None
    at=aceil(a)
    return r_of_int(at)
def h_floor(X,d,a):
    import math
    if a is UNDEF: return UNDEF
    if isc(a): return Fraction(math.floor(a))
    if a.op=='i2r': return a
    return r_of_int(afloor(a))
def h_fmaxmin(mx):
    def h(X,d,a,b):
        if a is UNDEF or b is UNDEF: return UNDEF
        c=X.fcmp('olt',a,b)
        if mx: a,b=b,a
        return X.select(c,a,b)
    return h
def h_muladd(X,d,a,b,c): return X.fop('fadd',X.fop('fmul',a,b),c)
def h_fmod(X,d,a,b):
    import math
    if a is UNDEF or b is UNDEF: return UNDEF
    if X.opts.get('havoc') and not (isc(a) and isc(b)): X.fresh+=1; return rsym('hv%d'%X.fresh)
    if isc(b) and b==0: raise Violation('fdiv0','fmod by zero')
    if isc(a) and isc(b):
        q=a/b; q=math.floor(q) if q>=0 else math.ceil(q)
        return a-q*b
    X.oblige('fdiv0',rlt(Fraction(0),b),'fmod with a non-positive period')
    for y,k,T in X.ghost.get('decomp',[]):
        # a == y + T*k with 0<=y<T, integer k: the remainder is determined by uniqueness of truncated division
        if X.real_eq(b,T) and X.real_eq(a,radd(y,rmul(T,r_of_int(k)))):
            if X.decide(ige(k,0)): return y
            if X.decide(req(y,Fraction(0))): return Fraction(0)
            return rsub(y,T)
    neg=X.decide(rlt(a,Fraction(0)))
    X.fresh+=1
    q=isym('fmodq#%d'%X.fresh); r=rsub(a,rmul(b,r_of_int(q)))
    if neg: X.assume(ile(q,0)); X.assume(rle(r,Fraction(0))); X.assume(rlt(rneg(b),r))
    else: X.assume(ige(q)); X.assume(rle(Fraction(0),r)); X.assume(rlt(r,b))
    X.ghost.setdefault('fmod',[]).append((a,b,q,r))
    return r
def h_sqrt(X,d,a):
    import math
    if isc(a):
        if a<0: raise Violation('fpcast','sqrt of negative')
        k=1<<60
        return Fraction(math.isqrt(int(a*k*k)),k)
    raise Unsupported('symbolic sqrt')
def h_throw_alloc(X,d,n): return X.new(n,'heap','exception')
def h_throw(X,d,obj,ti,dtor):
    nm=X.gobj.get(ti[0],'?')
    raise CxxThrow(nm.replace('@_ZTI',''),obj)
def h_throwfn(X,d,*a): raise CxxThrow('std:'+d.split('(')[0],None)
def h_terminate(X,d,*a): raise Violation('terminate',d)
def h_begin_catch(X,d,p,*a): return NULL
def h_umulo(X,d,a,b):
    r=X.ibin('mul',a,b,64)
    if type(a) is int and type(b) is int: return (r,a*b>M64)
    return (r,bnot(X_lt(X,a,b)))
def X_lt(X,a,b): return ilt(imul(X.uval(a,64),X.uval(b,64)),1<<64)
def h_uaddo(X,d,a,b):
    if type(a) is int and type(b) is int: return ((a+b)&M64,a+b>M64)
    return (X.ibin('add',a,b,64),bnot(ilt(iadd(X.uval(a,64),X.uval(b,64)),1<<64)))
def h_expect(X,d,a,*r): return a
def h_isconst(X,d,*a): return False
def h_guard(X,d,p):
    if p[0] not in X.ghost.setdefault('guards',set()): 
        X.ghost['guards'].add(p[0]); return 1
    return 0
def h_strlen(X,d,p): return 8
def h_powi(X,d,a,n):
    n=X.sgn(n,32); r=Fraction(1)
    for _ in range(abs(n)): r=X.fop('fmul',r,a)
    return r if n>=0 else X.fop('fdiv',Fraction(1),r)
def h_rethrow(X,d,*a): raise X.exc
DEFAULT_HOOKS=[
 (r'^operator new(\[\])?\(',h_new),(r'^operator delete(\[\])?\(',h_delete),
 (r'^posix_memalign$',h_posix_memalign),(r'^malloc$',h_malloc),(r'^aligned_alloc$',h_aligned_alloc),(r'^free$',h_delete),
 (r'^llvm\.memcpy|^llvm\.memmove|^memcpy$|^memmove$',h_memcpy),(r'^llvm\.memset|^memset$',h_memset),
 (r'^llvm\.umin\.',h_min(True,False)),(r'^llvm\.umax\.',h_min(True,True)),(r'^llvm\.smin\.',h_min(False,False)),(r'^llvm\.smax\.',h_min(False,True)),
 (r'^llvm\.usub\.sat',h_usubsat),(r'^llvm\.fabs|^fabs$|^llvm\.fabs\.f64',h_fabs),(r'^llvm\.ceil|^ceilf?$',h_ceil),(r'^llvm\.floor|^floorf?$',h_floor),
 (r'^llvm\.maxnum|^fmax$',h_fmaxmin(True)),(r'^llvm\.minnum|^fmin$',h_fmaxmin(False)),(r'^llvm\.fmuladd|^llvm\.fma|^fma$',h_muladd),
 (r'^fmodf?$',h_fmod),(r'^llvm\.sqrt|^sqrtf?$',h_sqrt),(r'^llvm\.trunc|^trunc$',lambda X,d,a: a if a is UNDEF else r_of_int(X.r2i(a,64,True)) if not isc(a) else Fraction(int(a))),
 (r'^__cxa_allocate_exception$',h_throw_alloc),(r'^__cxa_throw$',h_throw),(r'^__cxa_free_exception$',h_nop),(r'^__cxa_rethrow$',h_rethrow),
 (r'^__cxa_begin_catch$',h_begin_catch),(r'^__cxa_end_catch$',h_nop),(r'^__clang_call_terminate$|^std::terminate\(\)$|^abort$|^__cxa_pure_virtual$|^std::__glibcxx_assert_fail',h_terminate),
 (r'^std::(domain_error|runtime_error|logic_error|out_of_range|length_error|invalid_argument|bad_alloc|exception|bad_variant_access)::(~)?\w+\(',h_nop),
 (r'^std::__throw_',h_throwfn),
 (r'^llvm\.umul\.with\.overflow',h_umulo),(r'^llvm\.uadd\.with\.overflow',h_uaddo),
 (r'^llvm\.expect',h_expect),(r'^llvm\.is\.constant',h_isconst),(r'^llvm\.powi',h_powi),
 (r'^llvm\.(donothing|stacksave|stackrestore|trap|var\.annotation|va_)',h_nop),
 (r'^__cxa_guard_acquire$',h_guard),(r'^__cxa_guard_release$|^__cxa_atexit$|^__cxa_guard_abort$',h_nop),
 (r'std::__cxx11::basic_string<|std::__cxx11::to_string|^std::allocator<char>',h_nop),(r'^llvm\.eh\.typeid',lambda X,d,*a:1),(r'^strlen$',h_strlen),
]
DEFAULT_HOOKS_C=[(re.compile(p),f) for p,f in DEFAULT_HOOKS]
from . import loops as LP
