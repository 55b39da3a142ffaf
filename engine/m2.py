"""Bounded scenarios: concrete grids, symbolic data, symbolic coordinates (all of R), contracts from spec.py."""
import itertools, random
from fractions import Fraction as Fr
from .terms import *
from . import spec as SP
from .scen import SymAPI,NatAPI,NatFail
from .run import Scen,Unit
from .vm import UNDEF

CELL='INTP_CELL_LAYOUT'; NODUM='INTP_PERIODIC_NO_DUMMY_POINT'; MT='INTP_MULTITHREAD'
def api_src(D,O,kinds,vt='double',ct='double'):
    return '#define VT_ %s\n#define CT_ %s\n'%(vt,ct)+'#define D_ %d\n#define O_ %d\n#define KINDS(X) %s\n#include <api.hpp>\n'%(D,O,' '.join('X(%d)'%k for k in kinds))
def nodes_uniform(n,a=Fr(0),dx=Fr(1)): return [a+dx*i for i in range(n)]
def nodes_random(n,rng,a=None):
    x=Fr(rng.randint(-8,8),4) if a is None else a; r=[x]
    for _ in range(n-1): x+=Fr(rng.randint(2,9),8); r.append(x)
    return r
def nodes_graded(n,rng):
    x=Fr(rng.randint(-8,8),4); r=[x]; h=[Fr(1,16),Fr(1,2),Fr(4)]
    for i in range(n-1): x+=h[i%3]*Fr(rng.randint(4,8),8); r.append(x)
    return r
class Grid:
    """axes with spec, plus how the data array is laid out for the build mode"""
    def __init__(g,axes,nodummy):
        g.ax=axes; g.D=len(axes); g.nd=nodummy
        g.dims=[a.m if (a.per and nodummy) else a.n for a in axes]
        g.kind=sum((0 if a.uniform else 1)<<d for d,a in enumerate(axes))
        g.per=sum(int(a.per)<<d for d,a in enumerate(axes))
        g.size=1
        for n in g.dims: g.size*=n
        g.ok=all(a.inverse() is not None for a in axes)
    def off(g,ix):
        k=0
        for i,n in zip(ix,g.dims): k=k*n+i
        return k
    def args(g,api):
        co=[];cn=[]
        for a in g.ax:
            if a.uniform: co+=[a.nodes[0],a.nodes[-1]]; cn.append(2)
            else: co+=a.nodes; cn.append(a.n)
        return api.D(co),api.Zs(cn)
    def make_f(g,api,data):
        co,cn=g.args(api)
        return api.call('f_make_%d'%g.kind,g.per,api.Zs(g.dims),api.D(data),co,cn)
    def make_t(g,api):
        co,cn=g.args(api)
        return api.call('t_make_%d'%g.kind,g.per,api.Zs(g.dims),co,cn)
    def desc(g): return 'x'.join('%s%s%d'%('p' if a.per else 'n','u' if a.uniform else 'e',a.n) for a in g.ax)
    def value(g,data,pts,ders=None):
        """spec value; pts: per axis (seg, reduced x)"""
        vec=[]
        for d,(a,(seg,x)) in enumerate(zip(g.ax,pts)):
            P=a.cardinal(seg,ders[d] if ders else 0)
            vec.append({i:SP.peval(p,x) for i,p in enumerate(P)})
        return SP.tensor(vec,lambda ix: data[g.off(ix)])
def axis(O,per,uniform,n,rng=None,a=Fr(0),dx=Fr(1)):
    return SP.Axis(O,per,nodes_uniform(n,a,dx) if uniform else nodes_random(n,rng),uniform)
def find_seg(api,ax,x):
    lo,hi=ax.O,ax.last
    while lo<hi:
        mid=(lo+hi)//2
        if ax.t[mid]==ax.t[mid+1] : pass
        if api.lt(x,ax.t[mid+1]): hi=mid
        else: lo=mid+1
    return lo
def coord(api,ax,name,inside=False):
    """a symbolic coordinate anywhere on the axis: (x as passed, (segment, reduced x))"""
    if not ax.per:
        sp=[t for t in ax.t]+[(p+q)/2 for p,q in zip(ax.t,ax.t[1:])]+[ax.first-1,ax.second+1,ax.first-ax.T*3,ax.second+ax.T*2]
        x=api.real(name,ax.first if inside else None,ax.second if inside else None,special=sp)
        return x,(find_seg(api,ax,x),x)
    y=api.real(name,Fr(0),ax.T,special=[Fr(0)]+[t-ax.first for t in ax.t[ax.O:ax.last+1]]+[(p+q)/2-ax.first for p,q in zip(ax.t[ax.O:ax.last+1],ax.t[ax.O+1:])])
    k=api.integer('k_'+name,None,None,special=[0,-1,1,-2,-7,5])
    if not api.native:
        api.assume(rlt(y,ax.T))
        api.decomp(y,k,ax.T); api.decomp(y,0,ax.T)
    x=radd(radd(ax.first,y),rmul(ax.T,api.i2r(k)))
    if api.native:
        x=Fr(float(x)); xs=ax.reduce(x)
    else: xs=radd(ax.first,y)
    return x,(find_seg(api,ax,xs),xs)
def fixed(ax,rng):
    """a concrete coordinate strictly inside a segment"""
    seg=rng.randint(ax.O,ax.last); f=Fr(rng.randint(1,7),8)
    x=ax.t[seg]*(1-f)+ax.t[seg+1]*f
    x=Fr(float(x))
    if not ax.t[seg]<=x<ax.t[seg+1]: x=ax.t[seg]
    return x,(ax.segment(x),x)
def coords(api,g,sym,rng):
    xs=[];pts=[]
    for d,a in enumerate(g.ax):
        x,p=coord(api,a,'x%d'%d) if d in sym else fixed(a,rng)
        xs.append(x); pts.append(p)
    return xs,pts
def scale(g,pts):
    """rounding slack factor for extrapolated coordinates"""
    s=1.
    if any(type(x) is R for _,x in pts): return 1
    for a,(seg,x) in zip(g.ax,pts):
        e=float(max(a.first-x,x-a.second,0))/float(min(q-p for p,q in zip(a.t,a.t[1:]) if q>p))
        s*=(1+e)**a.O*10
    return s
# ------------------------------------------------------------------ C01
def sc_nodes(g,shifts=(-2,-1,1,3)):
    def prep(api):
        data=api.data('f',g.size); return data,g.make_f(api,data)
    def body(api,ctx):
        data,f=ctx
        rngs=[range(a.m) for a in g.ax]
        for ix in itertools.product(*rngs):
            x=[a.nodes[i] for a,i in zip(g.ax,ix)]
            want=data[g.off(ix)]
            api.eq('interpolation',api.calld('f_eval',f,api.D(x)),want,'value at node %s of grid %s'%(ix,g.desc()))
            for d,a in enumerate(g.ax):
                if a.per and ix[d] in(0,a.m-1) and all(i==0 for e,i in enumerate(ix) if e!=d):
                    for k in shifts:
                        y=list(x); y[d]=a.nodes[ix[d]]+a.T*k
                        api.eq('interpolation',api.calld('f_eval',f,api.D(y)),want,'value at node %s shifted by %d periods on axis %d of grid %s'%(ix,k,d,g.desc()))
        for d,a in enumerate(g.ax):
            api.ieq('kind',api.callz('f_per',f,d),int(a.per),'periodicity'); api.ieq('kind',api.callz('f_uni',f,d),int(a.uniform),'uniform')
    return Scen('nodes-'+g.desc()+('-nd' if g.nd else ''),body,prep)
def sc_ctor(g,seed):
    """the constructors without periodicity argument"""
    def prep(api):
        data=api.data('f',g.size); co,cn=g.args(api); Z=api.Zs(g.dims); Dt=api.D(data)
        return data,api.call('f_make_ap_%d'%g.kind,Z,Dt,co,cn),api.call('t_interp',api.call('t_make_ap_%d'%g.kind,Z,co,cn),Z,Dt)
    def body(api,ctx):
        data,f1,f2=ctx; rng=random.Random(seed)
        ixs=list(itertools.product(*[range(a.m) for a in g.ax]))
        for ix in ixs if len(ixs)<20 else rng.sample(ixs,20):
            X=api.D([a.nodes[i] for a,i in zip(g.ax,ix)])
            for f in(f1,f2): api.eq('interpolation',api.calld('f_eval',f,X),data[g.off(ix)],'value at node %s of grid %s (aperiodic constructor)'%(ix,g.desc()))
        for d,a in enumerate(g.ax):
            for f in(f1,f2): api.ieq('kind',api.callz('f_per',f,d),0,'periodicity'); api.ieq('kind',api.callz('f_uni',f,d),int(a.uniform),'uniform')
    return Scen('ctor-'+g.desc()+('-nd' if g.nd else ''),body,prep)
def sc_nodes_it(O,per,n,nd):
    """1D constructors from iterators"""
    ax=axis(O,per,True,n,None,Fr(-1),Fr(1,2)); g=Grid([ax],nd); N=g.dims[0]
    ax0=axis(O,per,True,n); ax2=axis(O,per,True,n,None,Fr(-2)); M64=(1<<64)-1
    def prep(api):
        data=api.data('f',N); p=api.D(data); a,b=ax.nodes[0],ax.nodes[-1]
        fs=[('iterator range',ax,api.call('f_make_it',int(per),N,p,a,b)),('1D class with range',ax,api.call('f_make_1dr',int(per),N,p,a,b)),('1D class',ax0,api.call('f_make_1d',int(per),N,p)),
            ('coordinates',ax,api.call('f_make_itx',int(per),N,p,api.D(ax.nodes),ax.n)),
            ('1D template',ax0,api.call('t_interp_it',api.call('t_make_1d',int(per),N),N,p)),('1D template with range',ax,api.call('t_interp_it',api.call('t_make_1dr',int(per),N,a,b),N,p))]
        fs.append(('template with coordinates',ax,api.call('t_interp_it',api.call('t_make_x',int(per),N,api.D(ax.nodes),ax.n),N,p)))
        ai=M64-1; bi=(ax2.nodes[-1].numerator)&M64; zx=api.Zs([x.numerator&M64 for x in ax2.nodes])
        fs+=[('integer range',ax2,api.call('f_make_int',int(per),N,p,ai,bi)),('1D class with integer range',ax2,api.call('f_make_1di',int(per),N,p,ai,bi)),('integer coordinates',ax2,api.call('f_make_intx',int(per),N,p,zx,ax2.n))]
        if not per: fs+=[('aperiodic iterator range',ax,api.call('f_make_it2',N,p,a,b)),('aperiodic template',ax,api.call('t_interp_it',api.call('t_make_ap1',N,a,b),N,p)),
            ('1D class, default boundary',ax0,api.call('f_make_1d_def',N,p)),('1D class with range, default boundary',ax,api.call('f_make_1dr_def',N,p,a,b)),
            ('1D template, default boundary',ax0,api.call('t_interp_it',api.call('t_make_1d_def',N),N,p)),('1D template with range, default boundary',ax,api.call('t_interp_it',api.call('t_make_1dr_def',N,a,b),N,p))]
        return data,fs
    def body(api,ctx):
        data,fs=ctx
        for nm,x,f in fs:
            api.ieq('kind',api.callz('f_per',f,0),int(per),'%s: periodicity'%nm)
            for i in range(x.m):
                api.eq('interpolation',api.calld('f_eval',f,api.D([x.nodes[i]])),data[i],'%s: value at node %d'%(nm,i))
                if x.nodes[i].denominator==1:
                    z=api.Zs([x.nodes[i].numerator&M64])
                    api.eq('interpolation',api.calld('f_evali',f,z),data[i],'%s: value at node %d (integer coordinate)'%(nm,i))
                    if not per: api.eq('interpolation',api.calld('f_ati',f,z),data[i],'%s: checked value at node %d (integer coordinate)'%(nm,i))
    return Scen('nodes1d-%s%d%s'%('p' if per else 'n',n,'-nd' if nd else ''),body,prep)
def sc_nodes_symx(O,per,n,nd,kindname='e'):
    """explicit symbolic coordinates: every increasing coordinate sequence of this length"""
    def body(api,ctx):
        xs=api.data('c',n)
        if api.native:
            rng=api.rng; v=Fr(rng.randint(-8,8),4); xs=[]
            for i in range(n): xs.append(v); v+=Fr(rng.randint(2,9),8)
        else:
            for p,q in zip(xs,xs[1:]): api.assume(rlt(p,q))
        N=n-1 if (per and nd) else n
        data=api.data('f',N)
        f=api.call('f_make_1',int(per),api.Zs([N]),api.D(data),api.D(xs),api.Zs([n]))
        m=n-1 if per else n
        if per and not api.native:
            T=rsub(xs[-1],xs[0]); first=xs[0] if O%2 else rmul(Fr(1,2),radd(xs[0],rsub(xs[m-1],T)))
            for i in range(m): api.decomp(rsub(xs[i],first),0,T)
        for i in range(m):
            api.eq('interpolation',api.calld('f_eval',f,api.D([xs[i]])),data[i],'value at node %d'%i)
    def nz(X,b):
        if X.ghost.get('in_lu'): X.ghost['pivots']=X.ghost.get('pivots',0)+1; return True
        return False
    from .hooks import lu_scope
    return Scen('nodes-symbolic-%s%d'%('p' if per else 'n',n),body,opts=dict(conc=1,nonzero=nz,limit=400),hooks=lu_scope(),maxpaths=400)
# ------------------------------------------------------------------ C02 / C03 on splines
def knots_for(O,per,nseg,rng,rep=False):
    """knot sequence with nseg non-empty segments between t_O and t_{last+1}"""
    inc=lambda: Fr(rng.randint(1,8),8)
    ts=[Fr(rng.randint(-8,8),4)]
    for _ in range(nseg): ts.append(ts[-1]+inc())
    if not per:
        if rep: return [ts[0]]*(O+1)+ts[1:-1]+[ts[-1]]*(O+1)
        l=[ts[0]]
        for _ in range(O): l.insert(0,l[0]-inc())
        r=[ts[-1]]
        for _ in range(O): r.append(r[-1]+inc())
        return l[:-1]+ts+r[1:]
    T=ts[-1]-ts[0]; m=nseg
    def t(i): return ts[i%m]+T*(i//m)
    return [t(i-O) for i in range(m+2*O+1)]
class SGrid:
    def __init__(g,axes):
        g.ax=axes; g.D=len(axes); g.dims=[a.m for a in axes]; g.per=sum(int(a.per)<<d for d,a in enumerate(axes)); g.size=1
        for n in g.dims: g.size*=n
    off=Grid.off
    def make(g,api,ctrl):
        return api.call('s_make',g.per,api.Zs(g.dims),api.D(ctrl),api.D([t for a in g.ax for t in a.t]),api.Zs([len(a.t) for a in g.ax]))
    def value(g,ctrl,pts,ders=None):
        vec=[a.weights(seg,x,ders[d] if ders else 0) for d,(a,(seg,x)) in enumerate(zip(g.ax,pts))]
        return SP.tensor(vec,lambda ix: ctrl[g.off(ix)])
    def desc(g): return 'x'.join('%s%d'%('p' if a.per else 'n',a.m) for a in g.ax)
def sc_spline(g,sym,seed,hints=True,ders=(),tag='',proxy=False):
    rs=random.Random(seed)
    def prep(api):
        c=api.data('c',g.size); return c,g.make(api,c)
    def body(api,ctx):
        c,s=ctx; rng=random.Random(seed)
        xs,pts=coords(api,g,sym,rng); X=api.D(xs); sc=scale(g,pts)
        want=g.value(c,pts)
        api.eq('value',api.calld('s_eval',s,X),want,'spline value',sc)
        if hints:
            hs=[]
            for d,a in enumerate(g.ax):
                if d in sym: h=api.integer('h%d'%d,a.O,len(a.t)-a.O-2)
                else: h=rng.randint(a.O,len(a.t)-a.O-2)
                hs.append(h)
            if not api.native: hs=[api.X.concretize(h) if type(h) is not int else h for h in hs]
            H=api.Zs(hs)
            api.eq('hint',api.calld('s_evalh',s,X,H),want,'spline value with hint %s'%hs,sc)
            if proxy: api.eq('proxy',api.calld('s_proxy',s,X,H),want,'pre-computed value with hint',sc)
        for k in ders:
            w=g.value(c,pts,k)
            api.eq('derivative',api.calld('s_der',s,X,api.Zs(k)),w,'derivative %s'%(k,),sc)
            if hints: api.eq('derivative',api.calld('s_derh',s,X,H,api.Zs(k)),w,'derivative %s with hint'%(k,),sc)
    return Scen('spline-%s-%s%s'%(g.desc(),''.join(map(str,sym)),tag),body,prep,opts=dict(conc=1))
# ------------------------------------------------------------------ functions: values, derivatives, checked access
def sc_func(g,sym,seed,ders=(),checked=False,value=True,tag='',variants=True):
    def prep(api):
        data=api.data('f',g.size); return data,g.make_f(api,data)
    def body(api,ctx):
        data,f=ctx; rng=random.Random(seed)
        xs,pts=coords(api,g,sym,rng); X=api.D(xs); sc=scale(g,pts)
        if value:
            want=g.value(data,pts)
            api.eq('value',api.calld('f_eval',f,X),want,'value on grid %s'%g.desc(),sc)
            if variants: api.eq('value',api.calld('f_evalv',f,X),want,'value (coordinate list) on grid %s'%g.desc(),sc)
        for k in ders:
            w=g.value(data,pts,k); K=api.Zs(k)
            api.eq('derivative',api.calld('f_der',f,X,K),w,'derivative %s on grid %s'%(k,g.desc()),sc)
            if variants:
                api.eq('derivative',api.calld('f_derp',f,X,K),w,'derivative %s (pairs)'%(k,),sc)
                api.eq('derivative',api.calld('f_derv',f,X,K),w,'derivative %s (list)'%(k,),sc)
        if ders and variants:
            out=False
            for d,a in enumerate(g.ax):
                if not a.per and (api.lt(xs[d],a.nodes[0]) or api.lt(a.nodes[-1],xs[d])): out=True
            if not out:
                for k in ders:
                    w=g.value(data,pts,k); K=api.Zs(k)
                    for fn in('f_der_at','f_derp_at','f_derv_at'):
                        ty,v=api.throws(fn,f,X,K)
                        if ty is None: api.eq('derivative',v,w,'derivative %s (%s)'%(k,fn),sc)
        if checked:
            out=False
            for d,a in enumerate(g.ax):
                if not a.per:
                    lo,hi=a.nodes[0],a.nodes[-1]
                    if api.lt(xs[d],lo): out=True
                    elif api.lt(hi,xs[d]): out=True
            for fn,ref,k in [('f_at','f_eval',None),('f_atv','f_eval',None)]+[(fn,'f_der',k) for k in checked for fn in('f_der_at','f_derp_at','f_derv_at')]:
                a=[X] if k is None else [X,api.Zs(k)]
                ty,v=api.throws(fn,f,*a)
                if out:
                    api.check('throws',ty is not None,'%s does not throw outside the range, x=%s'%(fn,xs if api.native else ''))
                    api.check('throws',ty=='St12domain_error','%s throws %s instead of domain_error'%(fn,ty))
                else:
                    api.check('throws',ty is None,'%s throws inside the range, x=%s'%(fn,[float(x) for x in xs] if api.native else ''))
                    if ty is None: api.eq('same',v,api.calld(ref,f,*a),'%s differs from the unchecked call'%fn,sc)
    return Scen('func-%s-%s%s%s'%(g.desc(),''.join(map(str,sym)),'-nd' if g.nd else '',tag),body,prep,opts=dict(conc=1))
def sc_period(g,d,seed,ders=()):
    """shifting by any number of periods changes nothing, all other coordinates fixed"""
    def prep(api):
        data=api.data('f',g.size); return data,g.make_f(api,data)
    def body(api,ctx):
        data,f=ctx; rng=random.Random(seed); a=g.ax[d]
        base=[fixed(b,rng)[0] for b in g.ax]
        # any start point: base interval + j periods; shift k
        x,(seg,xs)=coord(api,a,'x%d'%d)
        p=list(base); p[d]=x; q=list(base); q[d]=xs
        P=api.D(p); Q=api.D(q)
        api.eq('period',api.calld('f_eval',f,P),api.calld('f_eval',f,Q),'value after a shift by k periods on axis %d of grid %s'%(d,g.desc()))
        for k in ders:
            K=api.Zs(k)
            api.eq('period',api.calld('f_der',f,P,K),api.calld('f_der',f,Q,K),'derivative %s after a shift by k periods on axis %d of grid %s'%(k,d,g.desc()),100)
    return Scen('period-%s-%d%s'%(g.desc(),d,'-nd' if g.nd else ''),body,prep,opts=dict(conc=1))
# ------------------------------------------------------------------ C11
def sc_proxy(g,sym,seed):
    def prep(api):
        d1=api.data('f',g.size); d2=api.data('g',g.size); t=g.make_t(api); Z=api.Zs(g.dims)
        return d1,d2,t,api.call('t_interp',t,Z,api.D(d1)),api.call('t_interp',t,Z,api.D(d2))
    def body(api,ctx):
        d1,d2,t,f1,f2=ctx; rng=random.Random(seed)
        xs,pts=coords(api,g,sym,rng); X=api.D(xs); sc=scale(g,pts)
        for mk in('t_proxy','t_proxyv'):
            p=api.call(mk,t,X)
            for f,d in((f1,d1),(f2,d2),(f1,d1)):
                v=api.calld('p_eval',p,f)
                api.eq('proxy',v,api.calld('f_eval',f,X),'pre-computed evaluator differs from direct evaluation on grid %s'%g.desc(),sc)
                api.eq('proxy',v,g.value(d,pts),'pre-computed evaluator differs from the interpolant on grid %s'%g.desc(),sc)
            api.call('p_free',p)
    return Scen('proxy-%s-%s%s'%(g.desc(),''.join(map(str,sym)),'-nd' if g.nd else ''),body,prep,opts=dict(conc=1))
def sc_proxy_knots(g,sym,seed): pass
# ------------------------------------------------------------------ C12
def sc_template(g,sym,seed,other=None):
    def prep(api):
        d1=api.data('f',g.size); d2=api.data('g',g.size); Z=api.Zs(g.dims); D1=api.D(d1); D2=api.D(d2)
        t=g.make_t(api)
        f1=api.call('t_interp',t,Z,D1); f2=api.call('t_interp',t,Z,D2); f1b=api.call('t_interp',t,Z,D1)
        t2=api.call('t_copy',t)
        api.call('t_free',t)
        f3=api.call('t_interp',t2,Z,D1)
        f4=api.call('f_empty'); api.call('t_into',t2,f4,Z,D2)
        if other is not None:
            od=api.data('o',other.size); f5=other.make_f(api,od)
        else: f5=api.call('f_copy',f1)
        api.call('t_into',t2,f5,Z,D2)
        f6=api.call('f_copy',f1)
        f9=api.call('f_empty'); api.call('f_assign',f9,f2); f10=api.call('f_copy',f5) if other is None else other.make_f(api,od); api.call('f_assign',f10,f1)
        f11=api.call('f_copy',f9); api.call('f_massign',f11,api.call('f_copy',f1)); api.call('f_assign',f6,f6)
        t3=api.call('t_copy',t2); f7=api.call('t_interp_move',t3,Z,D1)
        f8=api.call('t_interp',t2,Z,D2)
        g1=g.make_f(api,d1); g2=g.make_f(api,d2)
        return d1,d2,D1,D2,(f1,f1b,f3,f6,f7,f10,f11,g1),(f2,f4,f5,f8,f9,g2),t2
    def body(api,ctx):
        d1,d2,D1,D2,A,B,t2=ctx; rng=random.Random(seed)
        xs,pts=coords(api,g,sym,rng); X=api.D(xs); sc=scale(g,pts)
        for rnd in(0,1):
            for fs,dd in((A,d1),(B,d2)):
                want=g.value(dd,pts)
                for n,f in enumerate(fs): api.eq('template',api.calld('f_eval',f,X),want,'result %d of the template differs from the interpolant of its data, grid %s (round %d)'%(n,g.desc(),rnd),sc)
        for i in range(g.size):
            api.eq('frame',api.getD(D1,i),d1[i],'input data changed'); api.eq('frame',api.getD(D2,i),d2[i],'input data changed')
        for fs in(A,B):
            for f in fs:
                for d,a in enumerate(g.ax):
                    api.ieq('template',api.callz('f_per',f,d),int(a.per),'periodicity'); api.ieq('template',api.callz('f_uni',f,d),int(a.uniform),'uniform')
                    api.eq('template',api.calld('f_range',f,d,0),a.first,'range'); api.eq('template',api.calld('f_range',f,d,1),a.second,'range')
    return Scen('template-%s-%s%s'%(g.desc(),''.join(map(str,sym)),'-nd' if g.nd else ''),body,prep,opts=dict(conc=1))
# ------------------------------------------------------------------ C14
def sc_knots(g):
    def prep(api):
        data=api.data('f',g.size); return data,g.make_f(api,data)
    def body(api,ctx):
        data,f=ctx
        for d,a in enumerate(g.ax):
            n=api.callz('f_nknots',f,d)
            api.ieq('knots',n,len(a.t),'number of knots on axis %d of grid %s'%(d,g.desc()))
            ks=[api.calld('f_knot',f,d,i) for i in range(len(a.t))]
            for i,t in enumerate(a.t): api.eq('knots',ks[i],t,'knot %d on axis %d of grid %s'%(i,d,g.desc()))
            for i in range(len(ks)-1): api.check('knots',ks[i]<=ks[i+1] if not api.native else float(ks[i])<=float(ks[i+1])+1e-9,'knots decrease')
            api.eq('range',api.calld('f_range',f,d,0),a.first,'left end of range on axis %d of grid %s'%(d,g.desc()))
            api.eq('range',api.calld('f_range',f,d,1),a.second,'right end of range on axis %d of grid %s'%(d,g.desc()))
            if not a.per:
                api.check('range',ks[0]==a.nodes[0] and ks[-1]==a.nodes[-1],'knots do not start/end at the data range')
                api.check('range',api.calld('f_range',f,d,0)==a.nodes[0] and api.calld('f_range',f,d,1)==a.nodes[-1],'range is not the data range')
    return Scen('knots-'+g.desc()+('-nd' if g.nd else ''),body,prep)
def sc_knots_sym(O,per,n,nd,uniform):
    """symbolic coordinates, concrete length"""
    def body(api,ctx):
        if uniform:
            a=api.real('a',special=[Fr(0),Fr(-1),Fr(5,4)]); L=api.real('L',Fr(1,8),Fr(10),special=[Fr(1),Fr(n-1)]) if api.native else api.real('L')
            if not api.native: api.assume(rlt(Fr(0),L))
            b=radd(a,L)
            if api.native: b=Fr(float(b)); L=b-a
            xs=[radd(a,rmul(Fr(i,n-1),L)) for i in range(n)]
        elif api.native:
            rng=api.rng; v=Fr(rng.randint(-8,8),4); xs=[]
            for i in range(n): xs.append(v); v+=Fr(rng.randint(2,9),8)
        else:
            xs=api.data('c',n)
            for p,q in zip(xs,xs[1:]): api.assume(rlt(p,q))
        N=n-1 if (per and nd) else n
        data=api.data('f',N)
        if uniform: f=api.call('f_make_0',int(per),api.Zs([N]),api.D(data),api.D([a,b]),api.Zs([2]))
        else: f=api.call('f_make_1',int(per),api.Zs([N]),api.D(data),api.D(xs),api.Zs([n]))
        t=knots_terms(O,per,xs)
        api.ieq('knots',api.callz('f_nknots',f,0),len(t),'number of knots')
        ks=[api.calld('f_knot',f,0,i) for i in range(len(t))]
        for i,w in enumerate(t): api.eq('knots',ks[i],w,'knot %d (%s axis, %d points, order %d)'%(i,'periodic' if per else 'non-periodic',n,O))
        last=O+(n-1)-1 if per else len(t)-O-2
        if not api.native:
            for i in range(len(ks)-1): api.check('monotone',rle(ks[i],ks[i+1]),'knots decrease at %d'%i)
            for i in range(O,last+1): api.check('monotone',rlt(ks[i],ks[i+1]),'empty segment %d'%i)
        api.eq('range',api.calld('f_range',f,0,0),t[O],'left end of range'); api.eq('range',api.calld('f_range',f,0,1),t[last+1],'right end of range')
    def nz(X,b): return bool(X.ghost.get('in_lu'))
    from .hooks import lu_scope
    return Scen('knots-sym-%s%s%d'%('p' if per else 'n','u' if uniform else 'e',n),body,opts=dict(conc=1,nonzero=nz,limit=400),hooks=lu_scope(),maxpaths=300)
def knots_terms(O,per,xs):
    n=len(xs)
    if not per:
        if O==0: mid=[rmul(Fr(1,2),radd(xs[i-1],xs[i])) for i in range(1,n)]
        else: mid=[rmul(Fr(1,O),rsum(xs[i-O:i])) for i in range(O+1,n)]
        return [xs[0]]*(O+1)+mid+[xs[-1]]*(O+1)
    m=n-1; T=rsub(xs[-1],xs[0])
    def node(i): return radd(xs[i%m],rmul(Fr(i//m),T))
    K=n+2*O+(1-O%2)
    return [node(i-O) if O%2 else rmul(Fr(1,2),radd(node(i-O-1),node(i-O))) for i in range(K)]

# ------------------------------------------------------------------ C13
def sc_threads(g,seed):
    from . import conc
    def prep(api):
        data=api.data('f',g.size); d2=api.data('g',g.size); nt=0
        def run(f):
            if api.native: return f()
            X=api.X; conc.start(X); r=f(); X.ghost['ntasks']=X.ghost.get('ntasks',0)+conc.finish(X)
            return r
        f1=run(lambda: g.make_f(api,data)); t=run(lambda: g.make_t(api)); f2=run(lambda: api.call('t_interp',t,api.Zs(g.dims),api.D(d2)))
        return data,d2,f1,f2
    def body(api,ctx):
        data,d2,f1,f2=ctx; rng=random.Random(seed)
        for _ in range(3):
            pts=[fixed(a,rng) for a in g.ax]; X=api.D([p[0] for p in pts]); q=[p[1] for p in pts]
            api.eq('threads',api.calld('f_eval',f1,X),g.value(data,q),'value of the function constructed with threads, grid %s'%g.desc())
            api.eq('threads',api.calld('f_eval',f2,X),g.value(d2,q),'value of the function made from a template with threads, grid %s'%g.desc())
        big=max(a.m for a in g.ax)      # every line, along the longest axis
        for ix in itertools.product(*[range(a.m) if a.m==big else sorted({0,a.m//2,a.m-1}) for a in g.ax]):
            X=api.D([a.nodes[i] for a,i in zip(g.ax,ix)])
            api.eq('threads',api.calld('f_eval',f1,X),data[g.off(ix)],'value at node %s, grid %s'%(ix,g.desc()))
    return Scen('threads-%s%s'%(g.desc(),'-nd' if g.nd else ''),body,prep,opts=dict(log=1),hooks=conc.HOOKS)
# ------------------------------------------------------------------ C10
def sc_mem(g,sym,seed,cell,call=None,ders=()):
    """no contract on values: only the memory obligations of every access. call None: exact arithmetic, all calls.
    Otherwise one call with every floating point result of the evaluation replaced by an arbitrary real, so that rounding cannot
    break memory safety (over-approximation: a failure counts only if a failing input is found)"""
    calls=[call] if call else ['eval','evalt','der','at']+(['proxy'] if cell else [])
    def prep(api):
        data=api.data('f',g.size); D=api.D(data); Z=api.Zs(g.dims)
        f=g.make_f(api,data); t=g.make_t(api); f2=api.call('t_interp',t,Z,D)
        return f,t,f2
    def body(api,ctx):
        f,t,f2=ctx; rng=random.Random(seed); xs=[]
        for d,a in enumerate(g.ax):
            if d not in sym: xs.append(fixed(a,rng)[0])
            elif call or api.native:
                import math
                ks=[float(s) for s in a.t]
                sp=[s for s in ks]+[math.nextafter(s,9e9) for s in ks]+[math.nextafter(s,-9e9) for s in ks]+[s-1e-20 for s in ks]+[float(a.first)-float(a.T)*k for k in(1,2,3,1000)]+[float(a.second)+float(a.T)*k for k in(1,2,3,1000)]
                sp+=[math.nextafter(s,-9e9) for s in sp[-8:]]+[1e18,-1e18,1e300,-1e300,-1e-300,1e-300,-5e-324,-1e-18]
                xs.append(api.real('x%d'%d,special=sp))
            else: xs.append(coord(api,a,'x%d'%d)[0])
        X=api.D(xs)
        if not api.native and call: api.X.opts['havoc']=True
        try:
            def use(v):
                if v is UNDEF: api.X.fail('undef','result depends on uninitialised memory')
            for c in calls:
                if c=='eval': use(api.calld('f_eval',f,X))
                elif c=='evalt': use(api.calld('f_eval',f2,X))
                elif c=='der':
                    for k in ders: use(api.calld('f_der',f,X,api.Zs(k)))
                elif c=='at': api.throws('f_at',f,X)
                else: p=api.call('t_proxy',t,X); use(api.calld('p_eval',p,f2)); api.call('p_free',p)
        finally:
            if not api.native: api.X.opts['havoc']=False
    sc=Scen('mem-%s-%s%s%s'%(g.desc(),''.join(map(str,sym)),'-nd' if g.nd else '','-h'+call if call else ''),body,prep,opts=dict(conc=1),maxpaths=20000,nat_tries=150)
    sc.soft=bool(call)
    return sc
