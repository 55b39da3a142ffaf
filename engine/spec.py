"""Specification functions (the oracle side of the contracts): knots, basis functions, collocation, tensor product.
Independent of /repo's code; exact over Fractions, and over terms where an argument is symbolic."""
from fractions import Fraction as Fr
from functools import lru_cache
from .terms import radd,rsub,rmul,rdiv,isc

# ---- polynomials in one variable over Fractions: coefficient lists, lowest first
def padd(a,b):
    if len(a)<len(b): a,b=b,a
    return [x+(b[i] if i<len(b) else 0) for i,x in enumerate(a)]
def pscale(a,c): return [x*c for x in a]
def pmul_lin(a,c0,c1):
    """a*(c0+c1*x)"""
    r=[Fr(0)]*(len(a)+1)
    for i,x in enumerate(a): r[i]+=x*c0; r[i+1]+=x*c1
    return r
def pder(a,k=1):
    for _ in range(k): a=[i*x for i,x in enumerate(a)][1:]
    return a or [Fr(0)]
def peval(a,x):
    r=Fr(0)
    for c in reversed(a): r=radd(rmul(r,x),c)
    return r
def basis_polys(t,O,s):
    """Cox-de Boor by definition: polynomials of N_{s-O..s,O} on the segment [t_s,t_{s+1})"""
    memo={}
    def N(i,p):
        if p==0: return [Fr(1)] if i==s else [Fr(0)]
        k=(i,p)
        if k in memo: return memo[k]
        r=[Fr(0)]
        if i<=s<=i+p-1+0 or True:
            d1=t[i+p]-t[i] if i+p<len(t) and i>=0 else 0
            if s-(p-1)<=i<=s and d1!=0: r=padd(r,pmul_lin(N(i,p-1),-t[i]/d1,1/d1))
            if s-(p-1)<=i+1<=s:
                d2=t[i+p+1]-t[i+1]
                if d2!=0: r=padd(r,pmul_lin(N(i+1,p-1),t[i+p+1]/d2,-1/d2))
        memo[k]=r
        return r
    return [N(s-O+j,O) for j in range(O+1)]
def solve_inverse(A):
    """inverse of a Fraction matrix (Gauss-Jordan with pivoting), None if singular"""
    n=len(A); M=[list(r)+[Fr(int(i==j)) for j in range(n)] for i,r in enumerate(A)]
    for c in range(n):
        p=next((r for r in range(c,n) if M[r][c]!=0),None)
        if p is None: return None
        M[c],M[p]=M[p],M[c]
        v=M[c][c]; M[c]=[x/v for x in M[c]]
        for r in range(n):
            if r!=c and M[r][c]!=0:
                f=M[r][c]; M[r]=[x-f*y for x,y in zip(M[r],M[c])]
    return [r[n:] for r in M]
def spec_knots(O,per,nodes):
    """documented knot placement. nodes: coordinates of the data (closing point included on periodic axes)"""
    n=len(nodes)
    if not per:
        a,b=nodes[0],nodes[-1]
        if O==0: mid=[(nodes[i-1]+nodes[i])/2 for i in range(1,n)]
        else: mid=[sum(nodes[i-O:i],Fr(0))/O for i in range(O+1,n)]
        return [a]*(O+1)+mid+[b]*(O+1)
    m=n-1; T=nodes[-1]-nodes[0]
    def node(i): return nodes[i%m]+T*(i//m)
    if O%2: pts=lambda i: node(i-O)
    else: pts=lambda i: (node(i-O-1)+node(i-O))/2
    K=n+2*O+(1-O%2)
    return [pts(i) for i in range(K)]
class Axis:
    """one interpolation axis: order, periodicity, data coordinates"""
    def __init__(s,O,per,nodes,uniform):
        s.O=O; s.per=per; s.nodes=[Fr(x) for x in nodes]; s.uniform=uniform
        s.t=spec_knots(O,per,s.nodes)
        s.n=len(s.nodes); s.m=s.n-1 if per else s.n
        s._init()
    def _init(s):
        O=s.O
        s.first=s.t[O]
        s.last=O+s.m-1 if s.per else len(s.t)-O-2
        s.second=s.t[s.last+1]
        s.T=s.second-s.first
        s._b={}; s._inv=None; s._c={}
    @staticmethod
    def from_knots(O,per,t):
        a=Axis.__new__(Axis); a.O=O; a.per=per; a.t=[Fr(x) for x in t]; a.uniform=False
        a.m=len(t)-O-1 if not per else len(t)-2*O-1
        a.nodes=None; a.n=None; a._init()
        return a
    def basis(s,seg):
        if seg not in s._b: s._b[seg]=basis_polys(s.t,s.O,seg)
        return s._b[seg]
    def ctrl(s,seg,j):
        i=seg-s.O+j
        return i%s.m if s.per else i
    def reduce(s,x):
        if not s.per: return x
        q=(x-s.first)/s.T
        return x-s.T*(q.numerator//q.denominator)
    def segment(s,x):
        """segment of a (reduced) concrete coordinate"""
        import bisect       # first g in [O,last) with x<t[g+1], else last
        return min(bisect.bisect_right(s.t,x,s.O+1,s.last+1)-1,s.last)
    def weights(s,seg,x,k=0):
        """{control index: weight} of the k-th derivative at x on the piece seg"""
        r={}
        for j,p in enumerate(s.basis(seg)):
            c=s.ctrl(seg,j); v=peval(pder(p,k),x)
            r[c]=radd(r[c],v) if c in r else v
        return r
    def inverse(s):
        if s._inv is None:
            A=[]
            if s.m>150:         # long axis of order 0 or 1: the matrix is a permutation, its inverse is kept sparse
                W=[s.weights(s.segment(x),x) for x in map(s.reduce,s.nodes[:s.m])]; W=[{c:w for c,w in r.items() if w!=0} for r in W]
                if all(list(r.values())==[1] for r in W) and len({c for r in W for c in r})==s.m:
                    s._inv={c:SparseRow(i) for i,r in enumerate(W) for c in r}; return s._inv
            for i in range(s.m):
                x=s.reduce(s.nodes[i]); w=s.weights(s.segment(x),x); A.append([w.get(c,Fr(0)) for c in range(s.m)])
            s._inv=solve_inverse(A) or 'singular'
        return None if s._inv=='singular' else s._inv
    def cardinal(s,seg,k=0):
        """polynomials P_i with  d^k f/dx^k = sum_i P_i(x) f_i  on the piece seg"""
        if (seg,k) not in s._c:
            inv=s.inverse(); P=[[Fr(0)] for _ in range(s.m)]
            for j,p in enumerate(s.basis(seg)):
                c=s.ctrl(seg,j); dp=pder(p,k)
                for i in range(s.m):
                    if inv[c][i]: P[i]=padd(P[i],pscale(dp,inv[c][i]))
            s._c[(seg,k)]=P
        return s._c[(seg,k)]
class SparseRow:
    def __init__(s,i): s.i=i
    def __getitem__(s,j): return Fr(int(j==s.i))
def tensor(vecs,val,idx=()):
    """sum over multi-indices of prod vecs[d][i_d] * val(index); vecs[d]: {i: weight}"""
    d=len(idx)
    if d==len(vecs): return val(idx)
    r=Fr(0)
    for i,w in vecs[d].items():
        if isc(w) and w==0: continue
        r=radd(r,rmul(w,tensor(vecs,val,idx+(i,))))
    return r
