"""Scenarios: the same call sequence is run symbolically on the IR of the real code (SymAPI) and on the compiled code (NatAPI)."""
import ctypes, os, sys, json, random, time, subprocess
from fractions import Fraction as Fr
from . import build, irparse as ir
from .terms import *
from .vm import VM,CxxThrow,PathEnd,Violation,Unsupported,VMError,UNDEF,NULL
from . import spec as SP

class Throw(Exception): pass

class SymAPI:
    native=False
    def __init__(s,X): s.X=X
    def real(s,name,lo=None,hi=None,special=()):
        x=rsym(name)
        if lo is not None: s.X.assume(rle(lo,x))
        if hi is not None: s.X.assume(rle(x,hi))
        return x
    def integer(s,name,lo=None,hi=None,special=()):
        k=isym(name,None,None)
        if lo is not None: s.X.assume(ige(k,lo))
        if hi is not None: s.X.assume(ile(k,hi))
        return k
    def i2r(s,k): return r_of_int(k)
    def data(s,name,n): return [rsym('%s%d'%(name,i)) for i in range(n)]
    def D(s,vals): return s.X.new_doubles(list(vals))
    def Zs(s,vals):
        p=s.X.new(8*len(vals),'heap','ints'); c=s.X.mem[p[0]].c
        for i,v in enumerate(vals): c[8*i]=v
        return p
    def getD(s,p,i): return s.X.ns['ldd']((p[0],p[1]+8*i))
    def getZ(s,p,i): return s.X.ns['ldi']((p[0],p[1]+8*i))
    def d(s,v): return s._d(v)
    def _d(s,v): return v
    def call(s,fn,*a):
        r=s.X.call(fn,*a)
        if type(r) is tuple and len(r)==2: return r
        return r
    def calld(s,fn,*a): return s.X.call(fn,*a)
    def throws(s,fn,*a):
        """(threw, value)"""
        try: return None,s.X.call(fn,*a)
        except CxxThrow as e: return e.ty,None
    def lt(s,a,b): return s.X.decide(rlt(a,b))
    def le(s,a,b): return s.X.decide(rle(a,b))
    def ile(s,a,b): return s.X.decide(ile(a,b))
    def eq(s,kind,a,b,msg='',scale=1): return s.X.oblige_real_eq(kind,a,b,msg)
    def check(s,kind,b,msg=''): 
        s.X.oblige(kind,b if type(b) is not int else bool(b),msg)
    def ieq(s,kind,a,b,msg=''): s.X.oblige(kind,ieq(a,b),msg)
    def decomp(s,y,k,T): s.X.ghost.setdefault('decomp',[]).append((y,k,T))
    def assume(s,b): s.X.assume(b)

class NatFail(Exception): pass
class NatAPI:
    """the same interface on the compiled library, with concrete inputs drawn from rng or a model"""
    native=True
    def __init__(s,lib,rng,model=None,tol=1e-6):
        s.lib=lib; s.rng=rng; s.model=model or {}; s.trace=[]; s.keep=[]; s.inputs={}; s.tol=tol; s.ncheck=0; s.amb=False; s.slack=Fr(1,10**9) if tol<1e-4 else Fr(1,10**4)
    def _pick(s,name,gen):
        v=s.model.get('r_'+name)
        if v is not None:
            try:
                v=v.rstrip('?'); f=float(Fr(v))
                s.inputs[name]=f; return Fr(f)
            except Exception: pass
        f=float(gen()); s.inputs[name]=f
        return Fr(f)
    def real(s,name,lo=None,hi=None,special=()):
        r=s.rng
        def g():
            if special and r.random()<.6:
                v=r.choice(list(special))
            else:
                a=-3. if lo is None else float(lo); b=9. if hi is None else float(hi)
                v=r.uniform(a,b)
                if r.random()<.5: v=round(v*8)/8
            v=float(v)
            if lo is not None: v=max(v,float(lo))
            if hi is not None: v=min(v,float(hi))
            return v
        return s._pick(name,g)
    def integer(s,name,lo=None,hi=None,special=()):
        v=s.model.get('i_'+name)
        if v is not None and abs(int(v))<1000: v=int(v)
        else:
            v=s.rng.choice(list(special)) if special and s.rng.random()<.6 else s.rng.randint(max(lo if lo is not None else -3,-10**6),min(hi if hi is not None else 3,10**6))
        s.inputs[name]=v
        return v
    def i2r(s,k): return Fr(k)
    def data(s,name,n): return [s._pick('%s%d'%(name,i),lambda: s.rng.randint(-16,16)/8) for i in range(n)]
    def D(s,vals):
        vals=[float(v) for v in vals]; a=(ctypes.c_double*max(1,len(vals)))(*vals); s.keep.append(a); return a
    def Zs(s,vals):
        a=(ctypes.c_size_t*max(1,len(vals)))(*[int(v)&((1<<64)-1) for v in vals]); s.keep.append(a); return a
    def getD(s,p,i): return Fr(p[i])
    def getZ(s,p,i): return p[i]
    def _arg(s,a):
        if isinstance(a,Fr): return ctypes.c_double(float(a))
        if isinstance(a,int): return ctypes.c_size_t(a&((1<<64)-1))
        if isinstance(a,ctypes.c_void_p): return a
        return a
    def _rec(s,fn,a,r):
        def f(x):
            if isinstance(x,Fr): return float(x)
            if hasattr(x,'_length_'): return list(x)
            if isinstance(x,ctypes.c_void_p): return 'obj'
            return x
        s.trace.append([fn,[f(x) for x in a],f(r)])
    def call(s,fn,*a):
        f=getattr(s.lib,fn); f.restype=ctypes.c_void_p
        r=f(*[s._arg(x) for x in a]); 
        s._rec(fn,a,'obj')
        return ctypes.c_void_p(r)
    def callz(s,fn,*a):
        f=getattr(s.lib,fn); f.restype=ctypes.c_size_t
        r=f(*[s._arg(x) for x in a]); s._rec(fn,a,r); return r
    def calld(s,fn,*a):
        f=getattr(s.lib,fn); f.restype=ctypes.c_double
        r=f(*[s._arg(x) for x in a]); s._rec(fn,a,r)
        return s._fr(r,fn)
    def _fr(s,r,fn):
        if r!=r or r in(float('inf'),float('-inf')): raise NatFail('%s returned %r'%(fn,r))
        return Fr(r)
    def throws(s,fn,*a):
        f=getattr(s.lib,'nx_'+fn); f.restype=ctypes.c_double
        th=ctypes.c_int(0)
        r=f(ctypes.byref(th),*[s._arg(x) for x in a]); s._rec(fn,a,'throw %d'%th.value if th.value else r)
        if th.value: return {1:'St12domain_error'}.get(th.value,'other'),None
        return None,s._fr(r,fn)
    # comparisons with rounding slack: a value within 1e-9 of a break may fall on either side
    def lt(s,a,b):
        if a!=b and abs(a-b)<s.slack*(1+abs(a)): s.amb=True
        return a<b
    def le(s,a,b):
        if a!=b and abs(a-b)<s.slack*(1+abs(a)): s.amb=True
        return a<=b
    def ile(s,a,b): return a<=b
    def eq(s,kind,a,b,msg='',scale=1):
        s.ncheck+=1
        if abs(a-b)>Fr(s.tol)*Fr(scale)*(1+abs(b)) and not s.amb: raise NatFail('%s: %s: got %r, expected %r'%(kind,msg,float(a),float(b)))
        return True
    def check(s,kind,b,msg=''):
        s.ncheck+=1
        if not b and not s.amb: raise NatFail('%s: %s'%(kind,msg))
    def ieq(s,kind,a,b,msg=''):
        s.ncheck+=1
        if a!=b: raise NatFail('%s: %s: got %r, expected %r'%(kind,msg,a,b))
    def decomp(s,y,k,T): pass
    def assume(s,b):
        if b is False: raise PathEnd()
# integer-valued calls (SymAPI: same as call)
SymAPI.callz=lambda s,fn,*a: s.X.call(fn,*a)

class MemAPI(SymAPI):
    """contracts on values are not checked: only the memory obligations"""
    def eq(s,kind,a,b,msg='',scale=1):
        if a is UNDEF: s.X.fail('undef','result depends on uninitialised memory ('+msg+')')
        return True
    def check(s,*a): pass
    def ieq(s,*a): pass
