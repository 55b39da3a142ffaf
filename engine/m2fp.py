"""Contracts that hold for the machine arithmetic itself: the result of a floating point operation is an unknown number
unless the operation is exact. What still has to hold: the knots at the ends of a non-periodic axis and the range are the caller's numbers,
and checked access decides by comparing with exactly these."""
from fractions import Fraction as Fr
from .terms import *
from .run import Scen
def sc_ends_fp(D,O,kinds,ex,nd):
    """kinds: per axis (periodic, explicit)"""
    def body(api,ctx):
        nat=api.native; rng=api.rng if nat else None; co=[]; cn=[]; dims=[]; ends=[]; mask=0; per=0; big=rng.choice((0,0,3,8,20,41)) if nat else 0
        for d,(p,e) in enumerate(kinds):
            n=max(2,O+1+int(p))+ex+d+(big if D==1 else big%7); dims.append(n-1 if p and nd else n); per|=int(p)<<d; mask|=int(e)<<d
            if e:
                if nat:
                    v=rng.uniform(-5,5); xs=[]
                    for i in range(n): xs.append(Fr(v)); v=v+rng.uniform(.05,1.7)
                else:
                    xs=api.data('c%d_'%d,n)
                    for a,b in zip(xs,xs[1:]): api.assume(rlt(a,b))
            else:
                if nat: a=rng.uniform(-5,5); xs=[Fr(a),Fr(a+rng.uniform(.1,9))]
                else:
                    xs=api.data('c%d_'%d,2); api.assume(rlt(xs[0],xs[1]))
            co+=xs; cn.append(len(xs)); ends.append((xs[0],xs[-1]))
        same=(lambda a,b: a==b) if nat else req
        if nat:
            N=1
            for k in dims: N*=k
            f=api.call('f_make_%d'%mask,per,api.Zs(dims),api.D([Fr(rng.randint(-9,9)) for _ in range(N)]),api.D(co),api.Zs(cn))
        else: f=api.call('f_part_%d'%mask,per,api.Zs(dims),api.D(co),api.Zs(cn),api.call('ic_make'))
        X=[]; out=False
        for d,(p,e) in enumerate(kinds):
            a,b=ends[d]
            if not p:
                api.check('range',same(api.calld('f_range',f,d,0),a),'left end of the range is not the first coordinate (axis %d)'%d); api.check('range',same(api.calld('f_range',f,d,1),b),'right end of the range is not the last coordinate (axis %d)'%d)
                K=api.callz('f_nknots',f,d)
                for i in range(O+1):
                    api.check('knots',same(api.calld('f_knot',f,d,i),a),'knot %d is not the first coordinate'%i); api.check('knots',same(api.calld('f_knot',f,d,isub(K,1+i)),b),'last knots are not the last coordinate')
            if nat:
                x=rng.choice((a,b,a,b,Fr(rng.uniform(float(a),float(b))),a-1,b+1,Fr(nextafter(float(b),1)),Fr(nextafter(float(a),-1)))) if not p else Fr(rng.uniform(float(a)-5,float(b)+5))
                lt=lambda u,v: u<v
            else: x=api.real('x%d'%d); lt=api.lt
            X.append(x)
            if not p and (lt(x,a) or lt(b,x)): out=True
        for fn,a in(('f_at',[api.D(X)]),('f_der_at',[api.D(X),api.Zs([d%2 for d in range(D)])])):
            ty,v=api.throws(fn,f,*a)
            if out: api.check('throws',ty=='St12domain_error','%s does not throw outside the range'%fn)
            else: api.check('throws',ty is None,'%s throws inside the range'%fn)
    def nextafter(v,s):
        import math
        return math.nextafter(v,math.inf*s)
    def h_value(X,d,this,*a): return rsym('value')
    h_value.contract=True
    sc=Scen('ends-any-rounding-%s-O%d-%d%s'%(''.join('np'[p]+'ue'[e] for p,e in kinds),O,ex,'-nd' if nd else ''),body,None,opts=dict(conc=1,round=1,divcheck=False),hooks=[(r'^(double |float )?intp::BSpline<[^()]*>::(operator\(\)|derivative_at)\(',h_value)],nat_tries=400)
    sc.soft=True
    return sc
