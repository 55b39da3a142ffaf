"""Unbounded contract of the knot construction (C14): any number of points, any coordinates."""
from .terms import *
from .vm import UNDEF,Arr,Unsupported,Violation,PathEnd
from .run import Scen
from .m1 import STD,LIM,mono_axiom
from . import loops as LP
KAUTO=r'::create_knot_vector_<|::load_knots'
def strict_axiom(nm):
    """x(i)<x(j) for i<j, instantiated for the index terms of the query"""
    from .m1 import uf_of
    def ax(X,b):
        L={}
        for f in list(X.path)+([b] if b is not None and type(b) is B else []): L.update(uf_of(f))
        ts=[l for l in L.values() if l.a==nm]; out=[]
        for p in range(len(ts)):
            for q in range(p):
                i,j=ts[q].b[0],ts[p].b[0]; d=isub(j,i)
                if type(d) is int: out.append(rlt(ts[q],ts[p]) if d>0 else rlt(ts[p],ts[q]))
                else:
                    out.append(bor(ile(j,i),rlt(ts[q],ts[p]))); out.append(bor(ile(i,j),rlt(ts[p],ts[q])))
        return [o for o in out if type(o) is not bool]
    return ax
class Pts:
    """n points (closing point of a period included) and the knots the specification prescribes for them"""
    def __init__(s,X,O,per,uniform):
        s.X=X; s.O=O; s.per=per; s.uniform=uniform
        s.n=isym('n',max(2,O+1+(1 if per else 0)),None); X.assume(ile(s.n,1<<40)); n=s.n
        if uniform:
            s.a=rsym('a'); s.dx=rsym('dx'); X.assume(rlt(Fraction(0),s.dx)); s.L=rmul(s.dx,r_of_int(isub(n,1))); s.b=radd(s.a,s.L)
            s.x=lambda i: radd(s.a,rmul(r_of_int(i),s.dx))
        else:
            s.x=lambda i: ruf('x',(i,))
        s.K=iadd(n,2*O+1-O%2 if per else O+1)
        s.T=s.L if uniform else rsub(s.x(isub(n,1)),s.x(0))
        s.last=iadd(isub(n,2),O) if per else isub(n,1)       # last segment
    def node(s,i):
        """periodic continuation of the points"""
        if s.uniform: return s.x(i)
        X=s.X; m=isub(s.n,1)
        if X.decide(ilt(i,0)): return rsub(s.x(iadd(i,m)),s.T)
        if X.decide(ige(i,m)): 
            j=isub(i,m)
            return radd(s.x(j),s.T) if X.decide(ilt(j,m)) else radd(s.x(isub(j,m)),radd(s.T,s.T))
        return s.x(i)
    def t(s,i):
        X=s.X; O=s.O
        if s.per:
            return s.node(isub(i,O)) if O%2 else rmul(Fraction(1,2),radd(s.node(isub(i,O+1)),s.node(isub(i,O))))
        if X.decide(ile(i,O)): return s.x(0)
        if X.decide(ige(i,s.n)): return s.b if s.uniform else s.x(isub(s.n,1))
        if O==0: return rmul(Fraction(1,2),radd(s.x(isub(i,1)),s.x(i)))
        return rmul(Fraction(1,O),rsum([s.x(isub(i,k)) for k in range(O,0,-1)]))
def sc_knots_u(O,per,uniform,nd):
    def body(api,ctx):
        if api.native: return nat_knots(api,O,per,uniform,nd)
        X=api.X; P=Pts(X,O,per,uniform); n=P.n
        N=isub(n,1) if per and nd else n
        ic=api.call('ic_make')
        if uniform: f=api.call('f_part_0',int(per),api.Zs([N]),api.D([P.a,P.b]),api.Zs([2]),ic)
        else:
            xs=X.new_array(n,P.x,'coordinates'); f=api.call('f_part_1',int(per),api.Zs([N]),xs,api.Zs([n]),ic)
        X.oblige('knots',ieq(api.callz('f_nknots',f,0),P.K),'number of knots')
        X.oblige('knots',ieq(api.callz('f_uni',f,0),int(uniform)),'uniform flag'); X.oblige('knots',ieq(api.callz('f_per',f,0),int(per)),'periodicity flag')
        X.oblige_real_eq('range',api.calld('f_range',f,0,0),P.x(0) if not per or O%2 else P.t(O),'left end of range')
        X.oblige_real_eq('range',api.calld('f_range',f,0,1),P.t(iadd(P.last,1)),'right end of range')
        if not uniform: X.oblige('coordinates',ieq(api.callz('ic_size',ic,0),n),'number of coordinates kept')
        i=isym('i',0,None); X.assume(ilt(i,P.K))
        got=api.calld('f_knot',f,0,i)
        X.oblige_real_eq('knots',got,P.t(i),'knot i (%s axis, order %d)'%('periodic' if per else 'non-periodic',O))
        if not uniform:
            if X.decide(ilt(i,n)): X.oblige_real_eq('coordinates',api.calld('ic_get',ic,0,i),P.x(i),'coordinate kept for the construction')
        if X.decide(ilt(iadd(i,1),P.K)):
            nx=P.t(iadd(i,1)); me=P.t(i)
            if X.decide(band(ige(i,O),ile(i,P.last))): X.oblige('monotone',rlt(me,nx),'empty segment')
            else: X.oblige('monotone',rle(me,nx),'knots decrease')
    sc=Scen('knots-any-n-O%d-%s%s%s'%(O,'p' if per else 'n','u' if uniform else 'e','-nd' if nd else ''),body,None,mode='unbounded',hooks=STD,axioms=[] if uniform else [strict_axiom('x')],opts=dict(split_mod=1),maxpaths=9000,nat_tries=20)
    sc.cut=LP.install(KAUTO,[])
    return sc
def nat_knots(api,O,per,uniform,nd):
    from . import m2
    n=max(2,O+1+int(per))+api.rng.choice((0,1,2,3,5,9,14,15,16,30,31,62,63,64,100,255,256,300)); api.inputs['n']=n
    return m2.sc_knots_sym(O,per,n,nd,uniform).body(api,None)
