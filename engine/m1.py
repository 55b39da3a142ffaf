"""Unbounded contracts: sizes, indices and contents are symbolic; only the template parameters are instantiated."""
import re,z3
from .terms import *
from .vm import UNDEF,NULL,Violation,Unsupported,PathEnd
from .run import Scen,Unit
from .scen import MemAPI
LIM=(1<<60)-1
# ---------------------------------------------------------------- assumed contracts on the standard library (symbolic sizes)
def _arr_fill(X,p,n,fn):
    """[p,p+n) := fn(i)"""
    o=X.obj(p); off=p[1]
    X.oblige('bounds',band(ige(off),ige(isub(o.size,iadd(off,imul(8,n))))),'fill of %s'%o.name)
    X.make_arr(o); lo=X.elem_index(off,8)
    o.arr=type(o.arr)(o.arr.layers+[('fill',lo,iadd(lo,n),lambda i:fn(isub(i,lo)))])
def h_fill_n(X,d,p,n,v,*r):
    """std fill_n of 8-byte elements: *v stored n times; returns p+n"""
    if type(n) is int and type(p[1]) is int and X.obj(p).arr is None and n<64: return X.raw(d,p,n,v,*r)
    val=X.ns['ldd'](v) if type(v) is tuple else v
    _arr_fill(X,p,X.uval(n,64),lambda i: val)
    return (p[0],iadd(p[1],imul(8,n)))
def h_fill_range(X,d,p,q,v,*r):
    n=isub(q[1],p[1])
    if type(n) is int and n<512 and type(p[1]) is int and X.obj(p).arr is None: return X.raw(d,p,q,v,*r)
    k=idiv_exact(n,8)
    if k is None: raise Unsupported('fill of small elements')
    val=X.ns['ldd'](v) if type(v) is tuple else v
    if X.decide(ieq(k,0)): return None
    _arr_fill(X,p,k,lambda i: val)
STD=[(r'^(typename )?.*std::__fill_n_a1?<double\*, unsigned long, double>\(',h_fill_n),(r'^double\* std::__uninitialized_fill_n<.*>::__uninit_fill_n<double\*, unsigned long, double>\(',h_fill_n),
  (r'^.*std::__fill_a1<double\*, double>\(',h_fill_range),(r'^void std::fill<double\*, double>\(',h_fill_range)]
def dimsyms(X,D,lo=1,hi=None,pre='n'):
    ns=[isym('%s%d'%(pre,d),lo,hi) for d in range(D)]
    P=1
    for n in ns: P=imul(P,n)
    X.assume(ile(P,LIM))
    return ns,P
# ---------------------------------------------------------------- mesh (C09)
def sc_mesh_u(D,part,std='c++17'):
    def body(api,ctx):
        X=api.X; ns,P=dimsyms(X,D)
        N=api.Zs(ns)
        def rm(ix):
            k=0
            for i,n in zip(ix,ns): k=iadd(imul(k,n),i)
            return k
        ix=[isym('i%d'%d,0,None) for d in range(D)]
        for i,n in zip(ix,ns): X.assume(ilt(i,n))
        I=api.Zs(ix); k=rm(ix)
        out=api.Zs([0]*D)
        m=api.call('me_make',N); base=api.call('me_data',m)
        def pos(p):
            if p[0]!=base[0]: X.fail('indexing','pointer into another object'); raise Unsupported('')
            e=idiv_exact(isub(p[1],base[1]),8)
            if e is None: X.fail('indexing','misaligned element'); raise Unsupported('')
            return e
        def eq(kind,a,b,msg): X.oblige(kind,ieq(X.sgn(a) if type(a) is int else a,b),msg)
        if part=='index':
            eq('mesh',api.callz('md_size',N),P,'size'); eq('mesh',api.callz('me_size',m),P,'mesh size'); eq('mesh',api.callz('me_full_len',m),P,'end-begin')
            for d in range(D):
                for f in('md_dim','md_dimv'): eq('mesh',api.callz(f,N,d),ns[d],'dim_size')
            for f in('md_index','md_index_safe','md_index_safev'): eq('indexing',api.callz(f,N,I),k,'%s is not the row-major position'%f)
            for f in('me_ref','me_refv','me_cref','me_crefv'): eq('indexing',pos(api.call(f,m,I)),k,'position of an element (%s)'%f)
            X.oblige('range',band(ige(k),ilt(k,P)),'position of an element outside the storage')
        elif part=='inverse':
            for f,a in(('md_dimwise',N),('me_iter_indices',m)):
                api.call(f,a,k,out)
                for d in range(D): eq('inverse',api.getZ(out,d),ix[d],'%s of the position of an element, axis %d'%(f,d))
        elif part=='onto':
            t=isym('pos',0,None); X.assume(ilt(t,P))
            api.call('md_dimwise',N,t,out); js=[api.getZ(out,d) for d in range(D)]
            for d in range(D): X.oblige('onto',band(ige(js[d]),ilt(js[d],ns[d])),'index %d of a position is out of range'%d)
            eq('onto',api.callz('md_index',N,api.Zs(js)),t,'position of the indices of a position')
        else:
            d=int(part); n=ns[d]
            def at(i): j=list(ix); j[d]=i; return rm(j)
            kk=isym('k',0,None); X.assume(ilt(kk,n)); j2=isym('j',0,None); X.assume(ilt(j2,n))
            for f in('me_it_postinc','me_it_postdec','me_it_preinc','me_it_predec','me_it_arrow','me_it_conv','me_it_neg','me_it_negat','me_it_at','me_it_plus','me_it_plusl','me_it_adv','me_cit_at'):
                eq('iteration',pos(api.call(f,m,d,I,kk)),at(kk),'%s(k) along axis %d'%(f,d))
            for f in('me_it_minus','me_it_sub'): eq('iteration',pos(api.call(f,m,d,I,isub(n,kk))),at(kk),'%s along axis %d'%(f,d))
            # induction step of a forward / backward walk: from the element k the iterator moves to the element k+1 (k-1)
            for f in('me_it_step','me_it_stepp'): eq('iteration',pos(api.call(f,m,d,I,kk)),at(iadd(kk,1)),'%s: successor along axis %d'%(f,d))
            for f in('me_it_back','me_it_backp'): eq('iteration',pos(api.call(f,m,d,I,iadd(kk,1))),at(kk),'%s: predecessor along axis %d'%(f,d))
            # ... and it compares equal to the end exactly after n steps
            eq('iteration',api.callz('me_it_len',m,d,I),n,'end-begin along axis %d'%d); eq('iteration',api.callz('me_cit_len',m,d,I),n,'end-begin along axis %d (const)'%d)
            eq('iteration',api.callz('me_it_isend',m,d,I,n),1,'n steps do not reach the end'); 
            eq('iteration',api.callz('me_it_isend',m,d,I,kk),0,'the end is reached before n steps')
            api.call('me_skip_indices',m,d,I,kk,out)
            for e in range(D): eq('inverse',api.getZ(out,e),kk if e==d else ix[e],'indices of an axis iterator')
            X.oblige('range',band(ige(at(kk)),ilt(at(kk),P)),'element of a line outside the storage')
            lt=X.decide(ilt(kk,j2)); e_=(not lt) and X.decide(ieq(kk,j2))
            w=int(lt)|(int(not lt and not e_)<<1)|(int(lt or e_)<<2)|(int(not lt)<<3)|(int(e_)<<4)|(int(not e_)<<5)
            eq('iteration',api.callz('me_it_lt',m,d,I,kk,j2),w,'iterator comparisons along axis %d'%d)
            eq('iteration',X.sgn(api.callz('me_it_dist',m,d,I,kk,j2)),isub(j2,kk),'iterator difference along axis %d'%d)
    return Scen('mesh-any-shape-%d-%s'%(D,part),body,None,mode='unbounded',native=False,hooks=STD)

def h_uninit_fill_n_a(X,d,p,n,v,*r):
    if type(n) is int and type(p[1]) is int and X.obj(p).arr is None and n<64: return X.raw(d,p,n,v,*r)
    val=X.ns['ldd'](v)
    if X.decide(ieq(n,0)): return p
    _arr_fill(X,p,X.uval(n,64),lambda i: val)
    return (p[0],iadd(p[1],imul(8,n)))
def h_uninit_copy_a(X,d,a,b,p,*r):
    n=isub(b[1],a[1])
    if type(n) is int and n==0: return p
    if type(n) is int and n<512 and X.obj(a).arr is None: return X.raw(d,a,b,p,*r)
    X.memcpy(p,a,n)
    return (p[0],iadd(p[1],n))
STD+=[(r'std::__uninitialized_fill_n_a<double\*, unsigned long, double, ',h_uninit_fill_n_a),
  (r'^double\* std::__uninitialized_(copy|move)_a<(double( const)?\*|__gnu_cxx::__normal_iterator<double|std::move_iterator<double\*>).*, double\*, ',h_uninit_copy_a),(r'std::__uninitialized_move_if_noexcept_a<double\*, double\*, ',h_uninit_copy_a),
  (r'^void std::_Destroy<double\*, ',lambda X,d,a,b,*r: None),(r'std::__relocate_a<double\*, double\*, ',h_uninit_copy_a)]
def h_upper_bound(X,d,a,b,v,*r):
    """contract of std::upper_bound on doubles: requires a sorted valid range; ensures elements before the result are <= v and those from it on are > v"""
    if X.obj(a).arr is None: return X.raw(d,a,b,v,*r)
    o=X.obj(a); val=X.ns['ldd'](v)
    if b[0]!=a[0]: raise Violation('upper_bound','range of two objects')
    lo=X.elem_index(a[1],8); hi=X.elem_index(b[1],8)
    X.oblige('upper_bound',ile(lo,hi),'upper_bound called with an invalid range')
    X.oblige('bounds',band(ige(a[1]),ige(isub(o.size,b[1]))),'upper_bound range outside the knots')
    X.fresh+=1
    if X.decide(bsym('proof_of_sortedness%d'%X.fresh)):
        # side branch: the precondition, for arbitrary positions i<=j of the range
        i=isym('ub_i%d'%X.fresh); j=isym('ub_j%d'%X.fresh)
        X.assume(ile(lo,i)); X.assume(ile(i,j)); X.assume(ilt(j,hi))
        if X.check_sat(None)!=z3.unsat:
            X.oblige('upper_bound',rle(X.arr_read(o,i),X.arr_read(o,j)),'upper_bound called on an unsorted range')
        raise PathEnd()
    k=isym('ub%d'%X.fresh); X.assume(ile(lo,k)); X.assume(ile(k,hi))
    if X.decide(igt(k,lo)): X.assume(rle(X.arr_read(o,isub(k,1)),val))
    if X.decide(ilt(k,hi)): X.assume(rlt(val,X.arr_read(o,k)))
    return (a[0],imul(8,k))
UB=[(r'std::upper_bound<__gnu_cxx::__normal_iterator<double const\*, ',h_upper_bound)]
# ---------------------------------------------------------------- knots: monotone uninterpreted functions
def collect(b,out,seen):
    """uf leaves of a boolean"""
    st=[b]
    while st:
        x=st.pop()
        if type(x) in(bool,int) or x is None: continue
        if type(x) is B:
            if x.id in seen: continue
            seen.add(x.id)
            if x.op in('rlt','rle','req'):
                for t in(x.a,x.b):
                    if type(t) is R:
                        for l in rleaves(t).values():
                            if l.op=='uf': out[l.id]=l
            elif x.op in('not','and','or'): st.append(x.a); st.append(x.b)
_cache={}
def uf_of(b):
    r=_cache.get(b.id)
    if r is None:
        r={}; collect(b,r,set()); _cache[b.id]=r
    return r
def mono_axiom(names,strict=()):
    """t(i)<=t(j) for i<=j, instantiated for all index terms of the query; names: {name: extra index terms}"""
    def ax(X,b):
        L={}
        for f in list(X.path)+([b] if b is not None and type(b) is B else []):
            L.update(uf_of(f))
        out=[]
        for nm in names:
            ts=[l for l in L.values() if l.a==nm]
            for p in range(len(ts)):
                for q in range(len(ts)):
                    if p==q: continue
                    i,j=ts[p].b[0],ts[q].b[0]
                    d=isub(j,i)
                    if type(d) is int:
                        if d>=0: out.append(rle(ts[p],ts[q]))
                        continue
                    out.append(bor(ilt(j,i),rle(ts[p],ts[q])))
        return [o for o in out if type(o) is not bool]
    return ax
class SAxis:
    """a symbolic axis: m control points, K knots, arbitrary non-decreasing knots"""
    def __init__(s,O,per,d):
        s.O=O; s.per=per; s.d=d; s.name='t%d'%d
    def setup(s,X):
        O=s.O; s.m=isym('m%d'%s.d,O+1,None)
        s.K=iadd(s.m,2*O+1 if s.per else O+1); s.last=isub(s.K,O+2)
        X.assume(ilt(s.K,1<<40))
        s.t=lambda i: ruf(s.name,(i,))
        s.first=s.t(O); s.second=s.t(iadd(s.last,1)); s.T=rsub(s.second,s.first)
        X.assume(rlt(s.first,s.t(O+1))); X.assume(rlt(s.t(s.last),s.second))
        return s
    def coord(s,X):
        """any coordinate and its segment: (x passed, segment, x reduced)"""
        O=s.O; sg=isym('s%d'%s.d); X.assume(ige(sg,O)); X.assume(ile(sg,s.last))
        if not s.per:
            x=xr=rsym('x%d'%s.d)
            X.assume(bor(ieq(sg,O),rle(s.t(sg),x))); X.assume(bor(ieq(sg,s.last),rlt(x,s.t(iadd(sg,1)))))
        else:
            y=rsym('y%d'%s.d); k=isym('k%d'%s.d); X.assume(rle(Fraction(0),y)); X.assume(rlt(y,s.T))
            X.ghost.setdefault('decomp',[]).extend([(y,k,s.T),(y,0,s.T)])
            xr=radd(s.first,y); x=radd(xr,rmul(s.T,r_of_int(k)))
            X.assume(rle(s.t(sg),xr)); X.assume(rlt(xr,s.t(iadd(sg,1))))
        return x,sg,xr
    def ctrl(s,X,sg,j):
        """index of the control point of the j-th basis function of segment sg"""
        i=iadd(isub(sg,s.O),j)
        if s.per and not X.decide(ilt(i,s.m)): i=isub(i,s.m)
        return i
def basis(O,t,s,x,der=0):
    """values (or derivatives) of the O+1 B-splines that are non-zero on segment s, by the Cox-de Boor recurrence"""
    memo={}
    def N(i,p,k):      # i: offset from s-O ... B-spline number s-O+i of degree p, k-th derivative
        if not O-p<=i<=O or p<0: return Fraction(0)     # support of B_{s-O+i,p} contains segment s only for s-p <= s-O+i <= s
        if p==0: return Fraction(1) if k==0 else Fraction(0)
        r=memo.get((i,p,k))
        if r is not None: return r
        g=lambda j: t(iadd(s,j-O))
        r=Fraction(0)
        a,b=N(i,p-1,k if k==0 else k-1),N(i+1,p-1,k if k==0 else k-1)
        if a!=0:
            w=rsub(g(i+p),g(i)); r=radd(r,rdiv(rmul(a,rsub(x,g(i))) if k==0 else rmul(Fraction(p),a),w))
        if b!=0:
            w=rsub(g(i+p+1),g(i+1)); r=radd(r,rdiv(rmul(b,rsub(g(i+p+1),x)),w)) if k==0 else rsub(r,rdiv(rmul(Fraction(p),b),w))
        memo[i,p,k]=r
        return r
    return [N(i,O,der) for i in range(O+1)]
import itertools
def tensor_u(X,axs,pts,ders):
    """the tensor-product value: sum over the control points of the cell"""
    W=[basis(a.O,a.t,sg,x,k) for a,(sg,x),k in zip(axs,pts,ders)]
    C=[[a.ctrl(X,sg,j) for j in range(a.O+1)] for a,(sg,x) in zip(axs,pts)]
    terms=[]
    for js in itertools.product(*[range(a.O+1) for a in axs]):
        w=Fraction(1); k=0
        for d,j in enumerate(js):
            w=rmul(w,W[d][j]); k=iadd(imul(k,axs[d].m),C[d][j])
        terms.append(rmul(w,ruf('c',(k,))))
    return rsum(terms)
def nat_spline(api,D,O,pers,ders,hints,proxy=False):
    from . import m2,spec as SP
    rng=api.rng; axs=[]
    for d,p in enumerate(pers):
        lo=O+1 if p else 1
        ns=rng.choice([lo,lo+1,lo+2,lo+3,lo+5,9+lo,17+lo] if D>1 else [lo,lo+1,lo+2,lo+4,8+lo,15,16,17,31,32,33,64,100,130,257,300])
        ns=max(ns,lo); api.inputs['segments%d'%d]=ns
        axs.append(SP.Axis.from_knots(O,p,m2.knots_for(O,p,ns,rng,rng.random()<.5)))
    sc=m2.sc_spline(m2.SGrid(axs),tuple(range(D)),rng.randrange(1<<30),hints=hints,ders=ders,proxy=proxy)
    return sc,sc.prep(api)
def sc_eval_u(D,O,pers,ders=(),hints=True,value=True,limit=3000,deadline=None,tag=''):
    def prep(api):
        if api.native: return nat_spline(api,D,O,pers,ders,hints)
        X=api.X; axs=[SAxis(O,p,d).setup(X) for d,p in enumerate(pers)]
        M=1
        for a in axs: M=imul(M,a.m)
        X.assume(ile(M,1<<55))
        ctrl=X.new_array(M,lambda i: ruf('c',(i,)),'control points')
        if D==1: kn=X.new_array(axs[0].K,axs[0].t,'knots')
        else:
            tot=isum([a.K for a in axs])
            def content(i):
                off=0
                for a in axs[:-1]:
                    if X.decide(ilt(isub(i,off),a.K)): return a.t(isub(i,off))
                    off=iadd(off,a.K)
                return axs[-1].t(isub(i,off))
            kn=X.new_array(tot,content,'knots')
        s=api.call('s_make_u',sum(int(p)<<d for d,p in enumerate(pers)),api.Zs([a.m for a in axs]),ctrl,kn,api.Zs([a.K for a in axs]))
        return axs,s
    def body(api,ctx):
        if api.native: return ctx[0].body(api,ctx[1])
        X=api.X; axs,s=ctx
        same=lambda kind,v,w,msg: X.fail('undef','result depends on uninitialised memory') if v is UNDEF else None if isinstance(api,MemAPI) else X.oblige_real_eq(kind,v,w(),msg)
        xs=[];pts=[]
        for a in axs:
            x,sg,xr=a.coord(X); xs.append(x); pts.append((sg,xr))
        XA=api.D(xs)
        H=None
        if hints:
            hs=[]
            for a in axs:
                h=isym('h%d'%a.d,O,None); X.assume(ile(h,a.last)); hs.append(h)
            H=api.Zs(hs)
        def pick():
            # one call per path: the fork is over the calls
            L=([('v',None,0)] if value else [])+([('v',None,1)] if value and hints else [])+[('d',k,h) for k in ders for h in ((0,1) if hints else (0,))]
            for q in L[:-1]:
                X.fresh+=1
                if X.decide(bsym('call_%s'%L.index(q))): return q
            return L[-1]
        kind,k,h=pick()
        if kind=='v':
            v=api.calld('s_evalh',s,XA,H) if h else api.calld('s_eval',s,XA)
            same('value',v,lambda:tensor_u(X,axs,pts,(0,)*D),'spline value%s'%(' with hint' if h else ''))
        else:
            K=api.Zs(k)
            v=api.calld('s_derh',s,XA,H,K) if h else api.calld('s_der',s,XA,K)
            same('derivative',v,lambda:tensor_u(X,axs,pts,k),'derivative %s%s'%(k,' with hint' if h else ''))
    return Scen('any-knots-%s-O%d%s%s'%(''.join('p' if p else 'n' for p in pers),O,'-der' if ders else '',tag),body,prep,mode='unbounded',deadline=deadline,hooks=STD+UB,axioms=[mono_axiom(['t%d'%d for d in range(D)])],opts=dict(split_mod=1,limit=limit,havoc=False),maxpaths=3000)
