"""Bounded scenarios for the band matrices, the band solvers and the mesh: concrete shapes, symbolic element values."""
import random, itertools
from fractions import Fraction as Fr
from .terms import *
from .run import Scen,Unit
from .vm import Violation
BAND='#include <band.hpp>\n'
def mesh_src(D): return '#define D_ %d\n#include <mesh.hpp>\n'%D
def positions(pre,n,p,q):
    """stored elements; fill-in region of the wrap-around matrix included"""
    E=[]
    for i in range(n):
        for j in range(n):
            main=j+p>=i and i+q>=j
            side=pre=='em' and ((j>=n-p and j>i+q) or (i>=n-q and i>j+p))
            if main or side: E.append((i,j,main))
    return E
def pivots(X,b):
    """divisors are pivots: assumed non-zero by the property; a divisor that is zero for every matrix is a violation"""
    if pit_equal(b,Fr(0)): raise Violation('fdiv0','division by a term that is identically zero')
    X.ghost['pivots']=X.ghost.get('pivots',0)+1
    return True
def build_matrix(api,pre,n,p,q,rng,name='a'):
    E=positions(pre,n,p,q)
    m=api.call(pre+'_make',n,p,q)
    vals=api.data(name,len(E)); A={}
    for (i,j,main),v in zip(E,vals):
        if api.native and i==j: v=v+8*n
        A[i,j]=v
    order=list(E); rng.shuffle(order)
    for i,j,main in order:
        if pre=='em' and rng.random()<.5: api.call('em_mset' if main else 'em_sset',m,i,j,A[i,j])
        else: api.call(pre+'_set',m,i,j,A[i,j])
    return m,A
def sc_lu(pre,n,p,q,seed):
    def prep(api):
        rng=random.Random(seed)
        m,A=build_matrix(api,pre,n,p,q,rng)
        m1=api.call(pre+'_copy',m)
        l1=api.call(pre+'_lu',m); l2=api.call(pre+'_luc',m); l3=api.call(pre+'_lum',m1); l4=api.call(pre+'_lucopy',l1)
        return m,A,(l1,l2,l3,l4)
    def body(api,ctx):
        m,A,ls=ctx
        for (i,j),v in A.items(): api.eq('frame',api.calld(pre+'_cget',m,i,j),v,"factorising changed element (%d,%d) of the caller's matrix"%(i,j))
        b=api.data('b',n); B=api.D(b)
        def resid(x,what):
            for i in range(n):
                s=Fr(0)
                for j in range(n):
                    if (i,j) in A: s=radd(s,rmul(A[i,j],x[j]))
                api.eq('solution',s,b[i],'%s: row %d of A x = b, n=%d p=%d q=%d'%(what,i,n,p,q))
        for w,l in zip(('compute(lvalue)','constructor','compute(rvalue)','copied solver'),ls):
            out=api.D([Fr(0)]*n); api.call(pre+'_solve_vec',l,B,n,out); resid([api.getD(out,i) for i in range(n)],w+', container')
        for i in range(n): api.eq('frame',api.getD(B,i),b[i],'right-hand side changed by solve()')
        l=ls[0]
        x=api.D(b); api.call(pre+'_solve_ptr',l,x); resid([api.getD(x,i) for i in range(n)],'pointer')
        x=api.D(b); api.call(pre+'_solve_it',l,x,n); resid([api.getD(x,i) for i in range(n)],'iterator')
        x=api.D(b); api.call(pre+'_solve_vip',l,x,n); resid([api.getD(x,i) for i in range(n)],'container in place')
        c=api.data('d',n)
        x=api.D([v for i in range(n) for v in (c[i],b[i],c[i])]); api.call(pre+'_solve_skip',l,x,n,3); resid([api.getD(x,3*i+1) for i in range(n)],'strided iterator')
        api.call(pre+'_solve_vec',l,B,n,out); resid([api.getD(out,i) for i in range(n)],'second use')
    return Scen('lu-%s-%d-%d-%d'%(pre,n,p,q),body,prep,opts=dict(nonzero=pivots,limit=60,conc=1),nat_tries=12)
def sc_store(pre,n,p,q,seed):
    def prep(api):
        rng=random.Random(seed)
        E=positions(pre,n,p,q); m0=api.call(pre+'_make',n,p,q)
        m,A=build_matrix(api,pre,n,p,q,rng)
        return E,m0,m,A
    def body(api,ctx):
        E,m0,m,A=ctx; rng=random.Random(seed+1)
        for i,j,main in E: api.eq('storage',api.calld(pre+'_cget',m0,i,j),Fr(0),'fresh element (%d,%d) is not zero'%(i,j))
        for k,v in enumerate((n,p,q)): api.ieq('storage',api.callz(pre+'_dims',m,k),v,'dimension query %d'%k)
        def same(mm,A,what):
            for i,j,main in E:
                api.eq('storage',api.calld(pre+'_cget',mm,i,j),A[i,j],'%s: element (%d,%d), n=%d p=%d q=%d'%(what,i,j,n,p,q))
                api.eq('storage',api.calld(pre+'_get',mm,i,j),A[i,j],'%s: element (%d,%d) non-const'%(what,i,j))
                if pre=='em': api.eq('storage',api.calld('em_mget' if main else 'em_sget',mm,i,j),A[i,j],'%s: element (%d,%d) by band'%(what,i,j))
        same(m,A,'read back')
        c=api.call(pre+'_copy',m)
        B=dict(A); nv=api.data('w',min(len(E),6))
        for (i,j,main),v in zip(rng.sample(E,len(nv)),nv):
            api.call(pre+'_set',c,i,j,v); B[i,j]=v
            same(c,B,'after writing (%d,%d)'%(i,j))
        same(m,A,'original after writing the copy')
        x=api.data('x',n); X=api.D(x); y=api.D([Fr(0)]*n)
        for mm,M in((m,A),(c,B)):
            api.call(pre+'_mul',mm,X,n,y)
            for i in range(n):
                s=Fr(0)
                for j in range(n):
                    if (i,j) in M: s=radd(s,rmul(M[i,j],x[j]))
                api.eq('product',api.getD(y,i),s,'row %d of the product, n=%d p=%d q=%d'%(i,n,p,q))
        for i in range(n): api.eq('frame',api.getD(X,i),x[i],'operand changed by the product')
        same(m,A,'after the product')
    return Scen('store-%s-%d-%d-%d'%(pre,n,p,q),body,prep,opts=dict(limit=200,conc=1),nat_tries=12)
def shapes(pre,nmax,tier):
    L=[]
    for n in range(1,nmax+1):
        for p in range(0,min(n,5)):
            for q in range(0,min(n,5)):
                if pre=='em' and p+q>=n: continue
                L.append((n,p,q))
    return L
# ------------------------------------------------------------------ mesh
def sc_mesh(D,dims,seed):
    size=1
    for n in dims: size*=n
    def rm(ix):
        k=0
        for i,n in zip(ix,dims): k=k*n+i
        return k
    def body(api,ctx):
        N=api.Zs(dims); st=[1]*D
        for d in range(D-2,-1,-1): st[d]=st[d+1]*dims[d+1]
        api.ieq('mesh',api.callz('md_size',N),size,'size')
        for d in range(D):
            api.ieq('mesh',api.callz('md_dim',N,d),dims[d],'dim_size'); api.ieq('mesh',api.callz('md_dimv',N,d),dims[d],'dim_size')
        m=api.call('me_make',N); base=api.call('me_data',m)
        api.ieq('mesh',api.callz('me_size',m),size,'mesh size'); api.ieq('mesh',api.callz('me_full_len',m),size,'end-begin')
        out=api.Zs([0]*D)
        def pos(p):
            if api.native: return (p.value-base.value)//8
            return p[1]//8 if p[0]==base[0] and type(p[1]) is int and p[1]%8==0 else -1
        for ix in itertools.product(*[range(n) for n in dims]):
            I=api.Zs(ix); k=rm(ix)
            for f in('md_index','md_index_safe','md_index_safev'): api.ieq('indexing',api.callz(f,N,I),k,'%s%s of shape %s'%(f,ix,dims))
            for f in('me_ref','me_refv','me_cref','me_crefv'): api.ieq('indexing',pos(api.call(f,m,I)),k,'position of element %s of shape %s (%s)'%(ix,dims,f))
            for f,a in(('md_dimwise',N),('me_iter_indices',m)):
                api.call(f,a,k,out)
                for d in range(D): api.ieq('inverse',api.getZ(out,d),ix[d],'%s of position %d, axis %d, shape %s'%(f,k,d,dims))
        rng=random.Random(seed)
        for _ in range(4):
            ix=[rng.randrange(n) for n in dims]
            for d in range(D):
                n=dims[d]; I=api.Zs(ix); line=[]
                for i in range(n):
                    jx=list(ix); jx[d]=i; line.append(rm(jx))
                for f,w in(('me_walk',line),('me_walk_post',line),('me_walk_back',line[::-1])):
                    buf=api.Zs([0]*(n+2)); c=api.callz(f,m,d,I,buf,n+2)
                    api.ieq('iteration',c,n,'%s: number of elements visited along axis %d of shape %s'%(f,d,dims))
                    for i in range(n):
                        a=api.getZ(buf,i); a=(a-base.value)//8 if api.native else pos(a)
                        api.ieq('iteration',a,w[i],'%s: element %d along axis %d of shape %s'%(f,i,d,dims))
                for i in range(n):
                    for f in('me_it_postinc','me_it_postdec','me_it_preinc','me_it_predec','me_it_arrow','me_it_conv','me_it_neg','me_it_negat','me_it_at','me_it_plus','me_it_plusl','me_it_adv','me_cit_at'): api.ieq('iteration',pos(api.call(f,m,d,I,i)),line[i],'%s(%d) axis %d shape %s'%(f,i,d,dims))
                    for f in('me_it_minus','me_it_sub'): api.ieq('iteration',pos(api.call(f,m,d,I,n-i)),line[i],'%s axis %d shape %s'%(f,d,dims))
                    if i+1<n:
                        for f in('me_it_step','me_it_stepp'): api.ieq('iteration',pos(api.call(f,m,d,I,i)),line[i+1],f)
                    if i:
                        for f in('me_it_back','me_it_backp'): api.ieq('iteration',pos(api.call(f,m,d,I,i)),line[i-1],f)
                    api.call('me_skip_indices',m,d,I,i,out)
                    for e in range(D): api.ieq('inverse',api.getZ(out,e),i if e==d else ix[e],'indices of an axis iterator')
                    for j in range(n):
                        r=api.callz('me_it_dist',m,d,I,i,j); r=r-(1<<64) if type(r) is int and r>>63 else r
                        api.ieq('iteration',r,j-i,'iterator difference axis %d shape %s'%(d,dims))
                        w=(i<j)|(i>j)<<1|(i<=j)<<2|(i>=j)<<3|(i==j)<<4|(i!=j)<<5
                        api.ieq('iteration',api.callz('me_it_lt',m,d,I,i,j)&63,w,'iterator comparisons axis %d shape %s'%(d,dims))
                api.ieq('iteration',api.callz('me_it_len',m,d,I),n,'end-begin of axis %d shape %s'%(d,dims)); api.ieq('iteration',api.callz('me_cit_len',m,d,I),n,'const end-begin')
        api.call('me_free',m)
    return Scen('mesh-'+'x'.join(map(str,dims)),body,None,nat_tries=1)
