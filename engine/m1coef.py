"""Unbounded contract of the construction of the interpolation equations (C01), one axis: any number of points, any coordinates.

The element (row of node i, j) of the coefficient matrix handed to the solver is the value of the j-th basis function at node i, for every
node and every control point; elements that the matrix cannot hold are zero."""
import re
from .terms import *
from .vm import UNDEF,Arr,Unsupported,Violation,PathEnd
from .run import Scen
from .m1 import STD,UB,mono_axiom
from .m1knots import Pts,KAUTO,strict_axiom
from .m1band import in_main,struct,inside
from . import loops as LP
CAUTO=KAUTO+r'|::build_solver_\(|::solve_for_control_points_\(|::generate_cell_layout\('
class PtsT(Pts):
    """explicit coordinates of a non-periodic axis: the knots t are kept abstract. What the argument needs of them: they do not decrease (C14)
    and the interlacing of nodes and knots (sc_interlace)"""
    def __init__(s,X,O):
        Pts.__init__(s,X,O,False,False)
        s.t=lambda i: ruf('t',(i,))
def interlace(P,i,t):
    """node i, 0<i<n-1"""
    O=P.O; x=P.x(i); e=[rlt(t(O),x),rlt(x,t(P.n))]
    if O==0: return e+[rle(t(i),x),rlt(x,t(iadd(i,1)))]
    r=e+[rle(t(iadd(i,1)),x),rlt(x,t(iadd(i,O+1)))]
    if O>=2: r.append(rlt(x,t(iadd(i,O))))
    return r
def sc_interlace(O):
    def body(api,ctx):
        X=api.X; P=Pts(X,O,False,False); i=isym('i',0,None); X.assume(ige(i,1)); X.assume(ilt(i,isub(P.n,1)))
        for f in interlace(P,i,P.t): X.oblige('lemma',f,'a node lies between the knots of its basis functions')
    return Scen('interlacing-O%d'%O,body,None,mode='lemma',native=False,axioms=[strict_axiom('x')])
def basis(P,mu,x):
    """values at x of the basis functions mu-O..mu, where t_mu <= x < t_mu+1 (Cox-de Boor)"""
    O=P.O; t={k:P.t(iadd(mu,k)) for k in range(1-O,O+1)}; N=[Fraction(1)]
    for d in range(1,O+1):
        M=[]
        for l in range(d+1):      # function mu-d+l of degree d
            v=Fraction(0)
            if l>0: v=radd(v,rmul(N[l-1],rdiv(rsub(x,t[l-d]),rsub(t[l],t[l-d]))))
            if l<d: v=radd(v,rmul(N[l],rdiv(rsub(t[l+1],x),rsub(t[l+1],t[l-d+1]))))
            M.append(v)
        N=M
    return N
class Rows:
    """invariant of the loop over the nodes: after k iterations the rows of the nodes 0..k-1 are those of the specification (A), all others are zero"""
    def __init__(s,top): s.top=top
    def __call__(s,X,key,vals,L):
        e=Rows(s.top); e.X=X; e.L=L; return e
    @property
    def g(s): return s.X.ghost['coef']
    def o(s): return s.X.mem[s.g['obj']]
    def done(s,ix,k):
        i=s.g['node'](ix[0]); return ruf('A',(i,ix[1])) if s.X.decide(ilt(i,k)) else Fraction(0)
    def memory(s,k):
        s.o().arr=Arr([('base',lambda ix: s.done(ix,k))])
        if type(k) is I: s.cells(k)
        if type(s.g['P']) is PtsT and s.X.decide(band(ige(k,1),ilt(k,isub(s.g['m'],1)))):
            for f in interlace(s.g['P'],k,s.g['P'].t): s.X.assume(f)
    def cells(s,k):
        """uniform knots: the values of the previous node are kept in a local array"""
        s.own={}
        P=s.g['P']
        if not P.uniform or P.per: return
        by={}
        for (o,off),c in s.L.info['cells'].items():
            if c[0]=='other' and o in s.X.mem: by.setdefault(o,[]).append(off)
        for o,offs in by.items():
            ob=s.X.mem[o]; b=min(offs)
            offs=sorted(offs)
            if offs==[b+8*l for l in range(P.O+1)] and o not in s.L.info.setdefault('notown',set()): s.own[o]=b
        if not s.own: return
        X=s.X; prev=isub(k,1)
        if X.decide(ige(prev,1)) and X.decide(ilt(prev,isub(s.g['m'],1))):
            N=s.at(prev)
            for o,b in s.own.items():
                for l in range(P.O+1): X.mem[o].c[b+8*l]=N[l]
    def inferred(s):
        for o,b in s.own.items():
            if any(type(s.X.mem[o].c.get(b+8*l,UNDEF)) not in(R,Fraction) and s.X.mem[o].c.get(b+8*l,UNDEF) is not LP.POISON for l in range(s.g['P'].O+1)): s.L.info['notown'].add(o)
    def at(s,i): P=s.g['P']; return basis(P,s.mu(i),P.x(i))
    def mu(s,i):
        X=s.X; P=s.g['P']; O=P.O
        if X.decide(ile(i,O//2)): return O
        r=iadd(i,(O+1)//2)
        return r if X.decide(ilt(r,P.n)) else isub(P.n,1)
    def step(s,k): pass
    def after(s,N): s.g['steps']=N
    def check(s,k):
        X=s.X; P=s.g['P']; m=s.g['m']; O=P.O; X.ghost['rows_checked']=True
        inner=band(ige(k,1),ilt(k,isub(m,1)))
        if s.own and X.decide(inner):
            N=s.at(k)
            for o,b in s.own.items():
                for l in range(O+1):
                    v=X.mem[o].c.get(b+8*l,UNDEF)
                    if type(v) not in(R,Fraction) or not X.real_eq(v,N[l]): raise Unsupported('values kept between nodes are not the basis values of the node: %d %r %r %r'%(l,v,N[l],X.path[-12:]))
        n,p,q=s.g['npq']; pre=s.g['pre']
        j=isym('col',0,None); X.assume(ilt(j,m))
        X.fresh+=1
        if X.decide(bsym('otherrow%d'%X.fresh)):
            r=isym('row',0,None); X.assume(ilt(r,m)); X.assume(struct(pre,n,p,q,r,j)); i=s.g['node'](r)
            if X.decide(ieq(i,k)): return
            got=X.arr_read(s.o(),(r,j))
            X.oblige_real_eq('frame',got,s.done((r,j),k),'row of another node changed'); return
        r=s.g['row'](k)
        held=X.decide(struct(pre,n,p,q,r,j))
        got=X.arr_read(s.o(),(r,j)) if held else Fraction(0)
        want=s.want(k,j)
        X.oblige_real_eq('coefficient',got,want,'coefficient of control point j in the equation of node i'+('' if held else ' (not held by the matrix)'))
    def want(s,i,j):
        X=s.X; P=s.g['P']; m=s.g['m']; O=P.O
        if P.per:
            l=isub(j,i) if X.decide(ige(isub(j,i))) else iadd(isub(j,i),m)
            if X.decide(igt(l,O)): return Fraction(0)
            for k in range(O+1):
                if k==O or X.decide(ieq(l,k)): return basis(P,iadd(i,O),P.x(i))[k]
        if X.decide(ieq(i,0)): return Fraction(int(X.decide(ieq(j,0))))
        if X.decide(ieq(i,isub(m,1))): return Fraction(int(X.decide(ieq(j,isub(m,1)))))
        x=P.x(i)
        if P.uniform:
            mu=s.mu(i); l=isub(j,isub(mu,O))
            if X.decide(bor(ilt(l,0),igt(l,O))): return Fraction(0)
            for k in range(O+1):
                if k==O or X.decide(ieq(l,k)): return basis(P,mu,x)[k]
        if X.decide(rlt(x,P.t(j))): return Fraction(0)
        for o in range(O+1):
            if X.decide(rlt(x,P.t(iadd(j,o+1)))): return basis(P,iadd(j,o),x)[O-o]
        return Fraction(0)
def sc_rows_u(O,per,uniform,nd,cell=False,interp=True):
    pre='em' if per else 'bm'
    def h_build(X,d,this,*r):
        """(no contract) the knots and coordinates are those C14 proves; then the real body is run"""
        P=X.ghost['coef']['P']
        for i,o in X.mem.items():
            if o.kind!='heap' or o.arr is None: continue
            if X.entails(ieq(o.size,imul(8,P.K))): o.arr=Arr([('base',P.t)],o.arr.esz); X.ghost['coef']['knots']=i
            elif not uniform and X.entails(ieq(o.size,imul(8,P.n))): o.arr=Arr([('base',P.x)],o.arr.esz)
        return X.raw(d,this,*r)
    h_build.scope=True
    def access(req):
        def h(X,d,this,i,j):
            g=X.ghost['coef']
            if g['this'] is None:
                g['this']=this; g['npq']=tuple(X.api.callz('mat_dim',this,k) for k in range(3))
            elif g['this']!=this: raise Unsupported('second matrix')
            n,p,q=g['npq']; i=X.uval(i,64); j=X.uval(j,64)
            X.oblige('element access',band(inside(n,i,j),req(n,p,q,i,j)),'%s: element (%r,%r) of a matrix of size %r bandwidths %r %r'%(re.sub('<.*>','',d),i,j,n,p,q))
            return X.gptr(X.mem[g['obj']],(i,j))
        h.contract=True
        return h
    def h_compute(X,d,this,mat,*r):
        g=X.ghost['coef']; P=g['P']
        X.oblige('solver',bool(('Extended' in d)==per),'kind of the solver')
        npq=tuple(X.api.callz('mat_dim',mat,k) for k in range(3)); n=npq[0]
        if g['npq'] is None: g['npq']=npq
        X.oblige('solver',ieq(n,g['m']),'size of the system')
        X.oblige('solver',ieq(g['steps'],g['m']),'number of equations') if g['steps'] is not None else X.fail('solver','no equations')
        i=isym('row',0,None); j=isym('col',0,None); X.assume(inside(g['m'],i,j)); X.assume(struct(pre,*g['npq'],i,j))
        X.oblige_real_eq('coefficient',X.arr_read(X.mem[g['obj']],(i,j)),ruf('A',(g['node'](i),j)),'the system changed after the loop over the nodes')
        X.ghost['computed']=X.ghost.get('computed',0)+1
    h_compute.contract=True
    def h_solve(X,d,this,it,*r):
        """contract of the solver (C06, C07): the line it is given becomes the solution of the system"""
        g=X.ghost['coef']; m=g['m']; X.ghost['solved']=X.ghost.get('solved',0)+1
        X.oblige('solver',bool(('Extended' in d)==per),'kind of the solver used')
        ptr=X.ns['ldp'](it); step=X.ns['ldi']((it[0],iadd(it[1],8)))
        X.oblige('solver',ieq(step,1),'stride of the line'); o=X.mem[ptr[0]]
        X.oblige('solver',band(ieq(ptr[1],0),ieq(o.size,imul(8,m))),'the line is the weights of all control points')
        if o.arr is None: X.make_arr(o)
        i=isym('node',0,None); X.fresh+=1
        if X.decide(bsym('rhs%d'%X.fresh)):
            X.assume(ilt(i,m)); X.oblige_real_eq('right-hand side',X.arr_read(o,g['row'](i)),g['f'](i),'right-hand side of the equation of node i'); raise PathEnd()
        o.arr=Arr([('base',lambda k: ruf('S',(k,)))],o.arr.esz)
    h_solve.contract=True
    M=r'intp::BandMatrix<double, std::allocator<double> ?>::operator\(\)\(unsigned long, unsigned long\)'; E=r'intp::ExtendedBandMatrix<double, std::allocator<double> ?>::'
    H=[('^'+E+r'operator\(\)\(',access(lambda *a: struct('em',*a))),('^'+E+r'main_bands_val\(',access(in_main)),('^'+M,access(in_main)),
       (r'intp::BandLUBase<.*>::compute<',h_compute),(r'intp::BandLUBase<.*>::solve_in_place<',h_solve),(r'::build_solver_\(\)$',h_build)]
    def body(api,ctx):
        if api.native: return nat_rows(api,O,per,uniform,nd)
        X=api.X; X.api=api; P=PtsT(X,O) if not per and not uniform and O!=1 else Pts(X,O,per,uniform); n=P.n
        N=isub(n,1) if per and nd else n; m=isub(n,1) if per else n; bw=O//2
        def row(i):
            if not per: return i
            r=iadd(i,bw); return r if X.decide(ilt(r,m)) else isub(r,m)
        def node(r):
            if not per: return r
            i=isub(r,bw); return i if X.decide(ige(i)) else iadd(i,m)
        p=X.new(0,'ghost','matrix elements'); o=X.mem[p[0]]; o.gidx=[]; o.arr=Arr([('base',lambda ix: Fraction(0))])
        X.ghost['coef']=dict(P=P,m=m,row=row,node=node,this=None,npq=None,obj=p[0],pre=pre,steps=None)
        if uniform: t=api.call('t_make_0',int(per),api.Zs([N]),api.D([P.a,P.b]),api.Zs([2]))
        else:
            xs=X.new_array(n,P.x,'coordinates'); t=api.call('t_make_1',int(per),api.Zs([N]),xs,api.Zs([n]))
        X.oblige('solver',X.ghost.get('computed')==1,'the system is factorised once')
        if not interp: return
        fv=lambda i: ruf('f',(i,))
        p=X.new_array(N,fv,'data'); X.ghost['coef']['f']=fv
        f=api.call('t_interp_it',t,N,p)
        X.oblige('solver',X.ghost.get('solved')==1,'the system is solved once')
        L_=iadd(m,O) if cell and per else m
        X.oblige('control points',ieq(api.callz('f_nctrl',f),L_),'number of control points')
        c=isym('cp',0,None); X.assume(ilt(c,L_)); w=c if not X.decide(ige(c,m)) else isub(c,m)
        X.oblige_real_eq('control points',api.calld('f_ctrl',f,c),ruf('S',(w,)),'control points are the solution of the system')
        X.oblige_real_eq('frame',X.arr_read(X.mem[p[0]],0),fv(0),'data changed')
    sc=Scen('equations-any-n-O%d-%s%s%s'%(O,'p' if per else 'n','u' if uniform else 'e','-nd' if nd else ''),body,None,mode='unbounded',hooks=H+STD+UB,axioms=[] if uniform else [strict_axiom('x')] if per else [strict_axiom('x'),mono_axiom(['t'])],opts=dict(split_mod=2,maxforks=400),maxpaths=9000,nat_tries=20)
    sc.cut=LP.install(CAUTO,[(r'::build_solver_\(',Rows(0))])
    return sc
def nat_rows(api,O,per,uniform,nd):
    from . import m2
    n=max(2,O+1+int(per))+api.rng.choice((0,1,2,3,5,9,14,15,16,30,31,62,63,64,100,255,256,300)); api.inputs['n']=n
    ax=m2.axis(O,per,uniform,n,api.rng,Fraction(-1),Fraction(1,2)); g=m2.Grid([ax],nd); sc=m2.sc_nodes(g)
    return sc.body(api,sc.prep(api) if sc.prep else None)
