"""Unbounded contracts of the band matrices and of the LU solver: any size, any bandwidths, any elements."""
import re
from .terms import *
from .vm import UNDEF,Arr,Unsupported,Violation,PathEnd
from .run import Scen,Unit
from .scen import MemAPI
from .m1 import STD,LIM
from . import loops as LP
# ---------------------------------------------------------------- the structure of the matrices
def in_main(n,p,q,i,j): return band(ige(isub(iadd(j,p),i)),ige(isub(iadd(i,q),j)))
def in_right(n,p,q,i,j): return band(ilt(iadd(i,q),j),ige(isub(iadd(j,p),n)))
def in_bottom(n,p,q,i,j): return band(ilt(iadd(j,p),i),ige(isub(iadd(i,q),n)))
def inside(n,i,j): return band(band(ige(i),ige(j)),band(ilt(i,n),ilt(j,n)))
def struct(pre,n,p,q,i,j):
    m=in_main(n,p,q,i,j)
    return m if pre=='bm' else bor(m,bor(in_right(n,p,q,i,j),in_bottom(n,p,q,i,j)))
# ---------------------------------------------------------------- contract of element access (proved by C08): an abstract map (i,j) -> value
def mat_of(X,this):
    g=X.ghost
    k=g['mat']
    if k['this'] is None: k['this']=this
    elif k['this']!=this: raise Unsupported('second matrix')
    return k,X.mem[k['obj']]
def access(pre,req):
    def h(X,d,this,i,j):
        k,o=mat_of(X,this); n,p,q=k['npq']
        i=X.uval(i,64); j=X.uval(j,64)
        X.oblige('element access',band(inside(n,i,j),req(n,p,q,i,j)),'%s: element (%r,%r) of a matrix of size %r bandwidths %r %r'%(re.sub('<.*>','',d),i,j,n,p,q))
        if d.endswith(' const'): return X.arr_read(o,(i,j))
        return X.gptr(o,(i,j))
    h.contract=True
    return h
def elem_hooks(pre):
    H=[(r'^intp::BandMatrix<double, std::allocator<double> ?>::operator\(\)\(unsigned long, unsigned long\)',access(pre,in_main))]
    if pre=='em':
        E=r'^intp::ExtendedBandMatrix<double, std::allocator<double> ?>::'
        H+=[(E+r'operator\(\)\(',access(pre,lambda *a: struct('em',*a))),(E+r'main_bands_val\(',access(pre,in_main)),
            (E+r'side_bands_val\(',access(pre,lambda *a: bor(in_right(*a),in_bottom(*a))))]
    return H
AUTO=r'intp::(BandLU|BandMatrix|ExtendedBandMatrix)|intp::detail|intp::BandLUBase'
def npq(X,pre):
    n=isym('n',1,None); p=isym('p',0,None); q=isym('q',0,None)
    X.assume(ile(n,1<<59)); X.assume(ile(p,1<<59)); X.assume(ile(q,1<<59)); X.assume(ile(imul(n,iadd(iadd(1,p),q)),LIM))
    if pre=='em': X.assume(ilt(iadd(p,q),n)); X.assume(ilt(p,n)); X.assume(ilt(q,n))      # the bands do not overlap
    return n,p,q
# ---------------------------------------------------------------- factorisation
class Elim:
    """invariant of the elimination loop: after k steps the element (i,j) of the structure is V(k,i,j), where
       V(0,i,j)=A(i,j),  V(k+1,i,j) = V(k,i,j)                          (i<=k or j<k)
                                    = V(k,i,k)/V(k,k,k)                 (i>k, j=k)
                                    = V(k,i,j)-V(k+1,i,k)*V(k,k,j)      (i>k, j>k),   V = 0 outside the structure"""
    def __init__(s,pre):
        s.pre=pre
    def __call__(s,X,key,vals,L):
        e=Elim(s.pre); e.X=X; e.L=L
        n,p,q=X.ghost['mat']['npq']; X.fresh+=1
        if X.decide(bsym('entry%d'%X.fresh)):
            i=isym('row',0,None); j=isym('col',0,None); X.assume(inside(n,i,j)); X.assume(struct(e.pre,n,p,q,i,j))
            X.oblige_real_eq('loop entry',X.arr_read(e.o,(i,j)),ruf('V',(0,i,j)),'element changed before the elimination'); raise PathEnd()
        return e
    @property
    def o(s): return s.X.mem[s.X.ghost['mat']['obj']]
    def V(s,k,i,j):
        n,p,q=s.X.ghost['mat']['npq']
        return ruf('V',(k,i,j)) if s.X.decide(struct(s.pre,n,p,q,i,j)) else Fraction(0)
    def memory(s,k): s.o.arr=Arr([('base',lambda ix: ruf('V',(k,)+tuple(ix)))])
    def pivot(s,k): s.X.assume(bnot(req(ruf('V',(k,k,k)),Fraction(0))))
    def step(s,k): s.pivot(k)
    def after(s,N): s.X.ghost['steps']=N
    def check(s,k):
        X=s.X; n,p,q=X.ghost['mat']['npq']
        i=isym('row',0,None); j=isym('col',0,None); X.assume(ilt(i,n)); X.assume(ilt(j,n)); X.assume(struct(s.pre,n,p,q,i,j))
        V=lambda a,b: s.V(k,a,b)
        if X.decide(bor(ile(i,k),ilt(j,k))): w=V(i,j)
        elif X.decide(ieq(j,k)): w=rdiv(V(i,k),V(k,k))
        else: w=rsub(V(i,j),rmul(rdiv(V(i,k),V(k,k)),V(k,j)))
        X.oblige_real_eq('elimination step',X.arr_read(s.o,(i,j)),w,'element (i,j) after step k+1 of the factorisation')
def sc_factor_u(pre):
    def body(api,ctx):
        if api.native: return nat_lu(api,pre)
        X=api.X; n,p,q=npq(X,pre)
        m=api.call(pre+'_make',n,p,q)
        X.ghost['mat']=dict(this=None,npq=(n,p,q),content=lambda ix: ruf('V',(0,)+tuple(ix)),obj=None); mat_of_early(X)
        l=api.call(pre+'_luc',m)
        N=X.ghost.get('steps')
        if N is None:
            # no elimination step at all: that is right for n = 1 only
            X.oblige('elimination steps',ile(n,1),'the factorisation of a matrix of size n>1 makes no step'); N=0
        else: X.oblige('elimination steps',band(ige(N,isub(n,1)),ile(N,n)),'number of elimination steps')
        i=isym('row',0,None); j=isym('col',0,None); X.assume(inside(n,i,j)); X.assume(struct(pre,n,p,q,i,j))
        X.oblige_real_eq('elimination',X.arr_read(X.mem[X.ghost['mat']['obj']],(i,j)),ruf('V',(N,i,j)),'elements changed after the elimination')
    sc=Scen('factorisation-%s-any-size'%pre,body,None,mode='unbounded',hooks=elem_hooks(pre)+STD,opts=dict(split_mod=1),maxpaths=9000,nat_tries=20)
    sc.cut=LP.install(AUTO,[(r'::compute_impl\(',Elim(pre))])
    return sc
def mat_of_early(X):
    """the matrix that the solver works on is the first one it touches: created before the loop so that the invariant can speak of it"""
    k=X.ghost['mat']; p=X.new(0,'ghost','matrix elements'); o=X.mem[p[0]]; o.gidx=[]; o.arr=Arr([('base',k['content'])]); k['obj']=p[0]; k['early']=True
# ---------------------------------------------------------------- substitution
class Subst:
    """invariants of the two substitution loops. Forward: after k columns element i of the vector is B(k,i), B(0,i)=b(i),
       B(k+1,i) = B(k,i)-F(i,k)*B(k,k) for i>k, else B(k,i).   Backward (column j=n-1-k): C(0,i)=B(n,i),
       C(k+1,j) = C(k,j)/F(j,j), C(k+1,i) = C(k,i)-F(i,j)*C(k+1,j) for i<j, else C(k,i).   F = the factors, 0 outside the structure"""
    def __init__(s,pre): s.pre=pre
    def __call__(s,X,key,vals,L):
        e=Subst(s.pre); e.X=X; e.L=L
        g=X.ghost['subst']=X.ghost.get('subst',0)+1
        if g>2: raise Unsupported('a third loop in the substitution')
        e.fw=g==1
        n=X.ghost['mat']['npq'][0]
        if e.fw: prove_entry(e,'right-hand side changed before the forward substitution',n,lambda i: X.arr_read(e.o,i),lambda i: ruf('B',(0,i)))
        else: prove_entry(e,'vector changed between forward and backward substitution',n,lambda i: X.arr_read(e.o,i),lambda i: ruf('B',(X.ghost['fsteps'],i)))
        return e
    @property
    def o(s): return s.X.mem[s.X.ghost['vec']]
    def F(s,i,j):
        n,p,q=s.X.ghost['mat']['npq']
        return ruf('F',(i,j)) if s.X.decide(struct(s.pre,n,p,q,i,j)) else Fraction(0)
    def memory(s,k):
        nm='B' if s.fw else 'C'
        s.o.arr=Arr([('base',lambda i: ruf(nm,(k,i)))])
    def step(s,k):
        X=s.X
        if not s.fw:
            j=isub(isub(X.ghost['mat']['npq'][0],1),k)
            X.assume(bnot(req(ruf('F',(j,j)),Fraction(0))))
    def after(s,N):
        X=s.X; n=X.ghost['mat']['npq'][0]
        if s.fw: X.ghost['fsteps']=N; X.oblige('substitution',band(ige(N,isub(n,1)),ile(N,n)),'number of forward substitution steps')
        else: X.oblige('substitution',ieq(N,n),'number of backward substitution steps'); X.ghost['solved']=True
    def check(s,k):
        X=s.X; n,p,q=X.ghost['mat']['npq']
        i=isym('row',0,None); X.assume(ilt(i,n))
        got=X.arr_read(s.o,i)
        if s.fw:
            w=rsub(ruf('B',(k,i)),rmul(s.F(i,k),ruf('B',(k,k)))) if X.decide(igt(i,k)) else ruf('B',(k,i))
        else:
            j=isub(isub(n,1),k); C=lambda a: ruf('C',(k,a))
            if X.decide(igt(i,j)): w=C(i)
            elif X.decide(ieq(i,j)): w=rdiv(C(j),s.F(j,j))
            else: w=rsub(C(i),rmul(s.F(i,j),rdiv(C(j),s.F(j,j))))
        X.oblige_real_eq('substitution step',got,w,'element i after a %s substitution step'%('forward' if s.fw else 'backward'))
def prove_entry(s_,what,n,got,want):
    """side branch: the state before the loop is the one the invariant starts from, for an arbitrary position"""
    X=s_.X; X.fresh+=1
    if X.decide(bsym('entry%d'%X.fresh)):
        i=isym('any%d'%X.fresh,0,None); X.assume(ilt(i,n))
        X.oblige_real_eq('loop entry',got(i),want(i),what); raise PathEnd()
def h_solve_impl(X,d,this,ref,*r):
    """(no contract: notes which elements the solver works on, then runs the real body)"""
    if 'skip_iterator' not in d:
        p=X.ns['ldp'](ref)
        if p[1]!=0: raise Unsupported('vector in the middle of an object')
        X.ghost['vec']=p[0]
    return X.raw(d,this,ref,*r)
h_solve_impl.scope=True
def h_line(X,d,this,k,*r):
    """contract of an axis iterator (C09): it[k] is the k-th element of a line of the mesh; different k are different elements"""
    k=X.sval(k,64) if type(k) is I else X.sgn(k)
    X.oblige('bounds',band(ige(k),ilt(k,X.ghost['mat']['npq'][0])),'element %r of a line'%(k,))
    return X.gptr(X.mem[X.ghost['vec']],k)
h_line.contract=True
def sc_solve_u(pre,how='ptr'):
    def prep(api):
        X=api.X; n,p,q=npq(X,pre)
        X.ghost['mat']=dict(this=None,npq=(n,p,q),content=lambda ix: ruf('F',tuple(ix)),obj=None)
        return n,p,q
    def body(api,ctx):
        if api.native: return nat_lu(api,pre)
        X=api.X; n,p,q=prep(api); m=api.call(pre+'_make',n,p,q)
        mat_of_early(X)
        l=api.call(pre+'_luc',m)
        b=lambda i: ruf('B',(0,i)); keep=None
        if how=='ptr': v=X.new_array(n,b,'right-hand side'); api.call(pre+'_solve_ptr',l,v)
        elif how=='axis':
            w=isym('lines',1,None); X.assume(ile(imul(n,w),LIM)); c=isym('line',0,None); X.assume(ilt(c,w))
            me=api.call('m2_make',n,w); g=X.new(0,'ghost','elements of a line'); o=X.mem[g[0]]; o.gidx=[]; o.arr=Arr([('base',b)]); X.ghost['vec']=g[0]
            api.call(pre+'_solveax',l,me,0,0,c)
        else:
            v=api.call('vec_make',n); dat=api.call('vec_data',v); X.mem[dat[0]].arr=Arr([('base',b)])
            if how=='vec': keep=dat[0]
            r=api.call(pre+{'vec':'_solvev','vip':'_solvevip','vit':'_solvevit'}[how],l,v)
            if how=='vec':
                v=r; X.oblige('substitution',ieq(api.callz('vec_size',r),n),'size of the solution')
                if api.call('vec_data',r)[0]!=X.ghost['vec']: raise Unsupported('the result is not the vector that was solved for')
        if X.ghost.get('subst')!=2 or not X.ghost.get('solved'): raise Unsupported('shape of the substitution')
        i=isym('row',0,None); X.assume(ilt(i,n))
        X.oblige_real_eq('substitution',X.arr_read(X.mem[X.ghost['vec']],i),ruf('C',(n,i)),'the result is not the vector after the last step')
        if keep: X.oblige_real_eq('frame',X.arr_read(X.mem[keep],i),b(i),'right-hand side changed by solve()')
    H=[(r'::compute_impl\(\)',lambda X,d,*a: None),(r'::solve_in_place_impl<',h_solve_impl),(r'::skip_iterator<double>::operator\[\]\(long\)',h_line)]
    sc=Scen('substitution-%s-any-size-%s'%(pre,how),body,None,mode='unbounded',hooks=H+elem_hooks(pre)+STD,opts=dict(split_mod=1),maxpaths=9000,nat_tries=20)
    sc.cut=LP.install(AUTO,[(r'::solve_in_place_impl<',Subst(pre))])
    return sc
# ---------------------------------------------------------------- storage: element independence, zero initialisation, copies
def cell(api,p):
    X=api.X; e=idiv_exact(p[1],8) if type(p[1]) is not int else (p[1]//8 if p[1]%8==0 else None)
    if e is None: raise Violation('storage','misaligned element')
    return p[0],e
MESH2=r'^(double( const)?&? )?intp::Mesh<double, 2ul, std::allocator<double> ?>::operator\(\)<'
def h_mesh2(X,d,this,a,b,*r):
    """contract of element access of a two-dimensional mesh (C09): requires indices within the shape; different indices are different elements"""
    n0=X.ghost['meshdims'].get(this)
    if n0 is None:
        n0=X.ghost['meshdims'][this]=tuple(X.raw_dim(this,k) for k in(0,1))
        p=X.new(0,'ghost','mesh elements'); o=X.mem[p[0]]; o.gidx=[]; k=len(X.ghost['meshobj']); o.arr=Arr([('base',lambda ix: ruf('S%d'%k,tuple(ix)))]); X.ghost['meshobj'][this]=p[0]
    a=X.uval(a,64); b=X.uval(b,64)
    X.oblige('bounds',band(band(ige(a),ilt(a,n0[0])),band(ige(b),ilt(b,n0[1]))),'element (%r,%r) of a mesh of shape %r'%(a,b,n0))
    o=X.mem[X.ghost['meshobj'][this]]
    return X.gptr(o,(a,b))
h_mesh2.contract=True
def mesh2_reset(api):
    X=api.X; X.ghost['meshdims']={}; X.ghost['meshobj']={}; X.raw_dim=lambda this,k: api.callz('m2_dim',this,k)
def sc_store_u(pre,part):
    def body(api,ctx):
        if api.native: return nat_store(api,pre)
        X=api.X; n,p,q=npq(X,pre); old=set(X.mem); m=api.call(pre+'_make',n,p,q)
        stores=[i for i,o in X.mem.items() if i not in old and o.kind=='heap' and o.arr is not None]
        mesh2_reset(api)
        def pos(a,b):
            i=isym(a,0,None); j=isym(b,0,None); X.assume(inside(n,i,j)); X.assume(struct(pre,n,p,q,i,j)); return i,j
        i,j=pos('i','j')
        if part=='independence':
            def cell(*a):
                r=api.call(*a); return r[0],X.mem[r[0]].gidx[r[1]//8]
            a=cell(pre+'_addr',m,i,j)
            if pre=='em':
                b=cell('em_maddr' if X.decide(in_main(n,p,q,i,j)) else 'em_saddr',m,i,j)
                X.oblige('storage',band(a[0]==b[0],band(ieq(a[1][0],b[1][0]),ieq(a[1][1],b[1][1]))),'access by band and access by position give different elements')
            k,l=pos('k','l'); c=cell(pre+'_addr',m,k,l)
            same=band(ieq(i,k),ieq(j,l))
            if a[0]==c[0]: X.oblige('independence',bor(same,bnot(band(ieq(a[1][0],c[1][0]),ieq(a[1][1],c[1][1])))),'two positions share a cell')
            else: X.oblige('independence',bnot(same),'one position with two cells')
            return
        for k,v in enumerate((n,p,q)): X.oblige('storage',ieq(api.callz(pre+'_dims',m,k),v),'dimension query %d'%k)
        get=lambda f,*r: X.oblige_real_eq
        def eq(kind,f,args,w,msg): X.oblige_real_eq(kind,api.calld(f,*args),w,msg+' (%s)'%f)
        G=[pre+'_get',pre+'_cget']
        if pre=='em': G.append('em_mget' if X.decide(in_main(n,p,q,i,j)) else 'em_sget')
        if part=='zero':
            for f in G: eq('storage',f,(m,i,j),Fraction(0),'a fresh element is not zero')
            v=rsym('v'); api.call(pre+'_set',m,i,j,v)
            for f in G: eq('storage',f,(m,i,j),v,'read back')
            return
        # copies keep the elements and do not share them: the storage holds arbitrary values
        for t,pt in enumerate(stores): X.mem[pt].arr=Arr([('base',lambda x,t=t: ruf('S%d'%t,(x,)))])
        w0=api.calld(pre+'_cget',m,i,j)
        c1=api.call(pre+'_copy',m); c2=api.call(pre+'_make',1,0,0); api.call(pre+'_assign',c2,m)
        w=rsym('w')
        for cc,what in((c1,'copy'),(c2,'assigned copy')):
            for f in G: eq('copy',f,(cc,i,j),w0,what)
            for t,z in enumerate((n,p,q)): X.oblige('copy',ieq(api.callz(pre+'_dims',cc,t),z),'%s: dimension query %d'%(what,t))
        for cc in(c1,c2):
            api.call(pre+'_set',cc,i,j,w); eq('copy',pre+'_cget',(m,i,j),w0,'writing a copy changed the original'); eq('copy',pre+'_cget',(cc,i,j),w,'write to a copy')
        c3=api.call(pre+'_mcopy',m); eq('copy',pre+'_cget',(c3,i,j),w0,'moved matrix')
        c4=api.call(pre+'_make',1,0,0); api.call(pre+'_massign',c4,c3); eq('copy',pre+'_cget',(c4,i,j),w0,'move-assigned matrix')
    H=[(MESH2,h_mesh2)] if part=='independence' else []
    return Scen('storage-%s-any-size-%s'%(pre,part),body,None,mode='unbounded',hooks=H+STD,opts=dict(split_mod=1),maxpaths=9000,nat_tries=20)
# ---------------------------------------------------------------- matrix-vector product
def monitored(elem):
    """stores into the result vector: each has to add (i,j)*x(j) to element i for a position (i,j) of the structure not added before"""
    def wr(X,o,i,v):
        d=radd(v,rmul(Fraction(-1),ruf('ACC',(i,))))
        js={l.b for l in rleaves(asR(d)).values() if l.op=='uf' and l.a=='x'} if type(d) is R else ()
        if len(js)!=1: raise Unsupported('the product is not accumulated term by term')
        j,=next(iter(js)); k=X.ghost['mat']; n,p,q=k['npq']
        X.oblige('product',band(inside(n,i,j),struct(k['pre'],n,p,q,i,j)),'term (%r,%r) of the product is no element of the matrix'%(i,j))
        X.oblige_real_eq('product',d,rmul(elem(i,j),ruf('x',(j,))),'term (%r,%r) of the product'%(i,j))
        e=X.mem[X.ghost['events']]
        X.oblige_real_eq('product',X.arr_read(e,(i,j)),Fraction(0),'term (%r,%r) of the product is added twice'%(i,j))
        X.arr_write(e,(i,j),Fraction(1))
    return wr
def h_veccons(X,d,*a):
    if X.ghost.get('mon')!='armed': return X.raw(d,*a)
    X.ghost['mon']=None; X.raw(d,*a); X.ghost['mon']='done'
    p=X.ns['ldp'](a[0]); o=X.obj(p); k=isym('any',0,None); n=X.ghost['mat']['npq'][0]
    X.oblige('product',ieq(o.size,imul(8,n)),'size of the result of the product')
    X.oblige_real_eq('product',X.arr_read(o,k),Fraction(0),'the accumulator of the product does not start at zero') if X.decide(ilt(k,n)) else None
    o.monitor=monitored(X.ghost['mat']['elem']); o.arr=Arr([('base',lambda i: ruf('ACC',(i,)))]); X.ghost['acc']=o.id
h_veccons.scope=True
def sc_mul_u(pre):
    def body(api,ctx):
        if api.native: return nat_store(api,pre)
        X=api.X; n,p,q=npq(X,pre)
        m=api.call(pre+'_make',n,p,q)
        X.ghost['mat']=dict(npq=(n,p,q),pre=pre,elem=lambda i,j: api.calld(pre+'_cget',m,i,j)); mesh2_reset(api)
        e=X.new(0,'ghost','terms added'); o=X.mem[e[0]]; o.gidx=[]; o.arr=Arr([('base',lambda ix: Fraction(0))]); X.ghost['events']=e[0]
        v=api.call('vec_make',n); dat=api.call('vec_data',v); X.mem[dat[0]].arr=Arr([('base',lambda i: ruf('x',(i,)))])
        X.ghost['mon']='armed'
        r=api.call(pre+'_mulv',m,v)
        X.oblige('product',ieq(api.callz('vec_size',r),n),'size of the result')
        rd=api.call('vec_data',r)
        if rd[0]!=X.ghost.get('acc'): raise Unsupported('the result is not the accumulator')
        i=isym('row',0,None); j=isym('col',0,None); X.assume(inside(n,i,j)); X.assume(struct(pre,n,p,q,i,j))
        X.oblige_real_eq('product',X.arr_read(X.mem[e[0]],(i,j)),Fraction(1),'term (row,col) of the product is missing')
        X.oblige_real_eq('frame',X.arr_read(X.mem[dat[0]],i),ruf('x',(i,)),'operand changed by the product')
    sc=Scen('product-%s-any-size'%pre,body,None,mode='unbounded',hooks=[(r'^std::vector<double, std::allocator<double> ?>::vector\(unsigned long, std::allocator<double> const&\)',h_veccons),(MESH2,h_mesh2)]+STD,opts=dict(split_mod=1),maxpaths=9000,nat_tries=20)
    sc.cut=LP.install(AUTO,[])
    return sc
# ---------------------------------------------------------------- the same contracts against the compiled code (search for failing inputs)
def nat_shape(api,pre):
    r=api.rng
    n=r.choice((1,2,3,4,5,6,7,8,9,11,13,16,17,20,31,33,64,65,100,129,257))
    while 1:
        p=r.choice((0,1,1,2,2,3,4,5,7,9)); q=r.choice((0,1,1,2,2,3,4,5,7,9))
        if pre=='bm' and p<max(n,1) and q<max(n,1) or p+q<n: return n,p,q
        if n==1: return 1,0,0
def nat_mat(api,pre,n,p,q):
    m=api.call(pre+'_make',n,p,q); A={}
    for i in range(n):
        for j in range(n):
            main=j+p>=i and i+q>=j
            if main or pre=='em' and ((j>i+q and j+p>=n) or (i>j+p and i+q>=n)):
                A[i,j]=Fraction(api.rng.randint(-8,8),4) if i!=j else Fraction(api.rng.choice((-1,1))*4*(n+api.rng.randint(0,9)))
    for k in (z:=list(A)): api.call(pre+'_set',m,k[0],k[1],A[k])
    return m,A
def nat_rows(A,n,x):
    y=[Fraction(0)]*n
    for (i,j),v in A.items(): y[i]+=v*x[j]
    return y
def nat_store(api,pre):
    n,p,q=nat_shape(api,pre); api.inputs.update(n=n,p=p,q=q)
    m0=api.call(pre+'_make',n,p,q); m,A=nat_mat(api,pre,n,p,q)
    c=api.call(pre+'_copy',m)
    for (i,j),v in A.items():
        api.eq('storage',api.calld(pre+'_cget',m0,i,j),Fraction(0),'fresh element (%d,%d), n=%d p=%d q=%d'%(i,j,n,p,q))
        api.eq('storage',api.calld(pre+'_get',m,i,j),v,'element (%d,%d), n=%d p=%d q=%d'%(i,j,n,p,q)); api.eq('storage',api.calld(pre+'_cget',c,i,j),v,'copied element (%d,%d), n=%d p=%d q=%d'%(i,j,n,p,q))
    x=[Fraction(api.rng.randint(-8,8),2) for _ in range(n)]; X=api.D(x); y=api.D([Fraction(0)]*n)
    api.call(pre+'_mul',m,X,n,y)
    for i,w in enumerate(nat_rows(A,n,x)): api.eq('product',api.getD(y,i),w,'row %d of the product, n=%d p=%d q=%d'%(i,n,p,q))
def nat_lu(api,pre):
    n,p,q=nat_shape(api,pre); api.inputs.update(n=n,p=p,q=q); m,A=nat_mat(api,pre,n,p,q)
    b=[Fraction(api.rng.randint(-64,64),4) for _ in range(n)]
    l=api.call(pre+'_luc',m); out=api.D([Fraction(0)]*n); api.call(pre+'_solve_vec',l,api.D(b),n,out)
    x=[api.getD(out,i) for i in range(n)]
    for i,w in enumerate(nat_rows(A,n,[Fraction(t) for t in x])): api.eq('solution',float(w),b[i],'row %d of A x = b, n=%d p=%d q=%d'%(i,n,p,q),scale=16)
# ---------------------------------------------------------------- lemmas over the contracts
def sc_closed(pre):
    def body(api,ctx):
        X=api.X; n,p,q=npq(X,pre)
        i,j,k=[isym(s,0,None) for s in 'ijk']; X.assume(inside(n,i,j)); X.assume(igt(i,k)); X.assume(igt(j,k)); X.assume(bnot(struct(pre,n,p,q,i,j)))
        X.oblige('lemma',bnot(band(struct(pre,n,p,q,i,k),struct(pre,n,p,q,k,j))),'elimination leaves the structure of the matrix')
    return Scen('lemma-structure-closed-%s'%pre,body,None,mode='lemma',native=False)
def sc_lean(name,what):
    """a lemma about the recursions in the contracts, checked by Lean's kernel"""
    def body(api,ctx):
        import subprocess,os
        d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'lean')
        src=open(os.path.join(d,name+'.lean')).read()
        if re.search(r'\b(sorry|axiom|native_decide)\b',src): raise Unsupported('incomplete Lean proof')
        try: r=subprocess.run(['lean',name+'.lean'],cwd=d,capture_output=True,text=True,timeout=400)
        except Exception as e: raise Unsupported('lean: '+repr(e)[:200])
        X=api.X; X.stats['obl']+=1; X.obl_kinds['lean lemma']=X.obl_kinds.get('lean lemma',0)+1
        if r.returncode!=0 or 'sorry' in r.stdout: raise Unsupported('lean: '+r.stdout[:200])
        X.stats['dis']+=1; X.stats['lean']=X.stats.get('lean',0)+1
    return Scen('lemma-'+what,body,None,mode='lemma',native=False)
