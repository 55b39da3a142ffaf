"""The units (harness + scenarios) that decide each property."""
import random, itertools
from fractions import Fraction as Fr
from . import spec as SP
from .m2 import *
from . import m2band as MB
from . import m1 as M1
from . import m1band as MU
from . import m1knots as MK_
from . import m1coef as MC_
from . import m2fp as FP_
from .run import Scen,Unit
TESTCFG=(CELL,NODUM)
ALLCFG=((),(CELL,),(NODUM,),(CELL,NODUM))
def cfgs(tier): return ((),TESTCFG) if tier=='quick' else ALLCFG
def cname(defs): return ''.join({CELL:'c',NODUM:'n',MT:'m'}[d] for d in defs) or 'p'
def mk(D,O,specs,nd,rng):
    """grid from axis specs (per,uniform: 1 uniform, 0 explicit, 2 explicit strongly graded, extra points over the minimum)"""
    ax=[]
    for d,(per,uni,ex) in enumerate(specs):
        n=O+1+ex+(1 if per else 0)
        if n<2: n=2
        a=Fr(rng.randint(-4,4),2); dx=Fr(rng.randint(1,6),4) if uni else Fr(1)
        # uniform steps with exact binary values
        ax.append(SP.Axis(O,bool(per),nodes_graded(n,rng),False) if uni==2 else axis(O,bool(per),bool(uni),n,rng,a,dx))
    g=Grid(ax,nd)
    return g if g.ok else None
KINDS4=((0,1),(0,0),(1,1),(1,0))
def grids(D,O,nd,rng,tier,few=False,long=False):
    out=[]
    def add(specs):
        for _ in range(4):
            g=mk(D,O,specs,nd,rng)
            if g: out.append(g); return
    if D==1:
        for per,uni in KINDS4:
            for ex in ((0,1,3) if tier=='quick' else (0,1,2,3,5)): add([(per,uni,ex)])
        # long axes: the interior rows of the coefficient matrix (which the code may reuse) and the corners are far apart
        if long:
            for per,uni in KINDS4: add([(per,uni,3*O+6 if not per else 2*O+5)])
            if O: add([(0,2,4)]); add([(1,2,5)])
    elif D==2:
        L=[((0,1,1),(1,0,0)),((1,1,0),(0,0,2)),((0,0,0),(0,1,1)),((1,0,1),(1,1,0))]
        if few: L=L[:2]
        if tier!='quick':
            L=[((p0,u0,e0),(p1,u1,e1)) for (p0,u0),(p1,u1) in itertools.product(KINDS4,KINDS4) for e0,e1 in((0,1),(2,0))]
        for s in L: add(s)
        if long:
            add(((0,1,3*O+5),(1,0,0))); add(((0,0,0),(0,1,3*O+6)))
    elif D==3:
        L=[((0,1,0),(1,0,1),(0,0,2)),((1,1,1),(0,0,0),(1,1,2))]
        if tier!='quick': L+=[((1,0,0),(1,1,1),(0,1,2)),((0,0,1),(0,1,2),(1,0,0)),((0,1,2),(0,0,1),(0,1,0))]
        if few: L=L[:1] if tier=='quick' else L
        for s in L: add(s)
    else:
        add(((0,1,0),(1,0,0),(0,0,1),(1,1,0)))
    return out
def orders(D,tier):
    if D==1: return (0,1,2,3,4,5) if tier=='quick' else (0,1,2,3,4,5,6,7)
    if D==2: return (1,2,3) if tier=='quick' else (0,1,2,3,4,5)
    if D==3: return (1,2) if tier=='quick' else (0,1,2,3)
    return (1,)
def dims(tier): return (1,2,3) if tier=='quick' else (1,2,3,4)
def unit(prop,D,O,defs,sc,std='c++17',tag='',vt='double',ct='double'):
    kinds=range(1<<D) if D<=3 else sorted({0,6})
    return Unit('%s_%d_%d_%s_%s%s'%(prop,D,O,cname(defs),std.replace('+','p'),tag),api_src(D,O,kinds,vt,ct),sc,std,defs)
def chunks(l,k):
    n=max(1,(len(l)+k-1)//k); return [l[i::n] for i in range(n)]
def syms(D,tier):
    return [(d,) for d in range(D)] if D<3 or tier!='quick' else [(0,),(1,),(2,)]
def ders_for(D,O,rng,tier):
    if D==1: return [(k,) for k in range(0,O+2)]
    L=[tuple(int(i==d) for i in range(D)) for d in range(D)]
    L+=[(1,)*D,tuple((O+2)*(i==0) for i in range(D)),tuple((O+1)*(i==D-1) for i in range(D)),tuple(min(O,2) if i==0 else 1 for i in range(D))]
    if tier!='quick': L+=[tuple(rng.randint(0,O) for _ in range(D)) for _ in range(4)]
    return list(dict.fromkeys(L))
def per_axis_units(prop,tier,seed,make,per_chunk=8,cf=None,D_list=None,few=False,order_f=orders,std='c++17',long=False):
    us=[]
    for D in D_list or dims(tier):
        for O in order_f(D,tier):
            for defs in cf or cfgs(tier):
                rng=random.Random('%s/%d/%d/%d/%s'%(prop,seed,D,O,defs))
                sc=[]
                for g in grids(D,O,NODUM in defs,rng,tier,few,long(D,O) if callable(long) else long):
                    sc+=make(g,D,O,rng,defs)
                for i,c in enumerate(chunks(sc,per_chunk)): us.append(unit(prop,D,O,defs,c,std,'_%d'%i))
    return us
def eq_units(prop,tier,orders_f,cf,std='c++17'):
    """unbounded contracts of the interpolation equations, one axis"""
    us=[]
    for O in orders_f:
        for defs in cf:
            for per in(False,True):
                for uni in(False,True):
                    sc=MC_.sc_rows_u(O,per,uni,NODUM in defs,CELL in defs); sc.soft=True
                    us.append(unit(prop,1,O,defs,[sc],std,tag='_eq%d%d'%(per,uni))); us[-1].weight=4+2*O
    return us
def C01(tier,seed):
    us=per_axis_units('C01',tier,seed,lambda g,D,O,rng,defs:[sc_nodes(g)],12,long=True)
    # the pre-C++17 branches of the solver selection
    us+=per_axis_units('C01',tier,seed,lambda g,D,O,rng,defs:[sc_nodes(g)],12,std='c++11',cf=((),) if tier=='quick' else ((),TESTCFG),long=True)
    for O in (range(8) if tier=='quick' else range(12)):
        for defs in ((),(NODUM,)):
            for std in('c++11','c++17'):
                us.append(unit('C14',1,O,defs,[MK_.sc_knots_u(O,per,uni,NODUM in defs) for per in(False,True) for uni in(False,True)],std,tag='_u'))
    for O in orders(1,tier):
        for defs in cfgs(tier):
            nd=NODUM in defs; sc=[]
            for per in(False,True):
                for ex in(0,2): sc.append(sc_nodes_it(O,per,O+2+ex,nd))
                for ex in((0,1) if O<4 else (0,)): 
                    if O<=3 or tier!='quick': sc.append(sc_nodes_symx(O,per,max(2,O+1+ex+(1 if per else 0)),nd))
            us.append(unit('C01',1,O,defs,sc,tag='_it'))
    us+=eq_units('C01',tier,range(4) if tier=='quick' else range(6),((),(NODUM,)) if tier=='quick' else ALLCFG)
    for std in('c++11','c++14'): us+=eq_units('C01',tier,(2,3) if tier=='quick' else range(5),((),) if std=='c++14' else (TESTCFG,),std)
    us.append(Unit('C01_interlace',api_src(1,1,[0]),[MC_.sc_interlace(O) for O in range(8 if tier=='quick' else 11)],'c++17',()))
    us+=float_units('C01',tier,seed,lambda g,D,O,rng,defs:[sc_nodes(g)]+([sc_ctor(g,rng.randint(0,1<<30))] if not g.per else []))
    for D,O in((1,2),(2,3),(3,1)):
        rng=random.Random('C01c/%d/%d'%(seed,D)); sc=[]
        for k in range(1<<D if D<3 else 3):
            g=mk(D,O,[(0,(k>>d)&1,d) for d in range(D)],False,rng)
            if g: sc.append(sc_ctor(g,rng.randint(0,1<<30)))
        us.append(unit('C01',D,O,(),sc,tag='_ap'))
    return us
def float_units(prop,tier,seed,make,cf=None):
    """other value and coordinate types"""
    us=[]
    for D,O,vt,ct in ((1,3,'float','float'),(1,2,'float','double'),(2,2,'double','float')) if tier=='quick' else [(D,O,v,c) for D in(1,2) for O in(1,2,3) for v,c in(('float','float'),('float','double'),('double','float'))]:
        for defs in cf or ((),TESTCFG):
            rng=random.Random('%s/f/%d/%d/%d/%s'%(prop,seed,D,O,defs)); sc=[]
            for g in grids(D,O,NODUM in defs,rng,'quick',True): sc+=make(g,D,O,rng,defs)
            for s in sc: s.tol=2e-2
            us.append(unit(prop,D,O,defs,sc,tag='_%s_%s'%(vt,ct),vt=vt,ct=ct))
    return us
def std_units(prop,tier,seed,make,pc=6,cf=None):
    """the language versions whose code paths differ from C++17"""
    us=[]
    f=lambda D,t: ((2,3) if D==1 else (2,)) if t=='quick' else ((0,1,2,3,4) if D==1 else (1,2,3))
    for std in ('c++11','c++14') if tier=='quick' else ('c++11','c++14','c++20'):
        us+=per_axis_units(prop,tier,seed,make,pc,cf=cf or (((),) if std=='c++14' else (TESTCFG,)),D_list=(1,2),few=True,order_f=f,std=std)
    return us
def pstr(s): return [c=='p' for c in s]
def eval_units(prop,tier,L1,L2,mk):
    """unbounded contracts of the evaluation; L1: (order, periodicity) in one dimension, L2: in more"""
    us=[]
    for O,ps in list(L1)+list(L2):
        D=len(ps)
        us.append(Unit('%su_%d_%d_%s'%(prop,D,O,ps),api_src(D,O,[0]),mk(D,O,pstr(ps)),'c++17',()))
        us[-1].weight=5
    return us
DL=lambda tier: 300 if tier=='quick' else 3000
def C02(tier,seed):
    us=eval_units('C02',tier,[(O,p) for O in ((0,1,2,3,4) if tier=='quick' else range(8)) for p in 'np'],
        [(1,'nn'),(1,'pn'),(1,'np'),(1,'pp')] if tier=='quick' else [(O,p) for O in(0,1,2,3) for p in('nn','pn','np','pp')]+[(1,'npn'),(1,'pnp')],
        lambda D,O,p:[M1.sc_eval_u(D,O,p,deadline=DL(tier))])
    for D in dims(tier):
        for O in orders(D,tier):
            for defs in cfgs(tier):
                rng=random.Random('C02/%d/%d/%d/%s'%(seed,D,O,defs)); sc=[]
                for pers in itertools.product((False,True),repeat=D):
                    for ns in ((1,3) if D==1 else (2,)):
                        for rep in ((False,True) if D==1 else (rng.random()<.5,)):
                            axs=[SP.Axis.from_knots(O,p,knots_for(O,p,(max(O+1,1) if p else 1)+ns-1+d,rng,rep)) for d,p in enumerate(pers)]
                            g=SGrid(axs)
                            for sy in ([(d,) for d in range(D)]): sc.append(sc_spline(g,sy,rng.randint(0,1<<30),hints=True,tag='-%d%d%d'%(ns,rep,len(sc)),proxy=CELL in defs))
                for i,c in enumerate(chunks(sc,8)): us.append(unit('C02',D,O,defs,c,tag='_%d'%i))
    return us
def C03(tier,seed):
    us=[]
    def make(g,D,O,rng,defs):
        return [sc_func(g,sy,rng.randint(0,1<<30),ders=ders_for(D,O,rng,tier),value=False,tag='-der') for sy in syms(D,tier)]
    us=per_axis_units('C03',tier,seed,make,6,few=True,long=lambda D,O: D==1 and O<=(2 if tier=='quick' else 5))
    us+=std_units('C03',tier,seed,make)+float_units('C03',tier,seed,make)
    us+=eval_units('C03',tier,[(O,p) for O in ((0,1,2,3) if tier=='quick' else range(6)) for p in 'np'],[(1,'nn')] if tier=='quick' else [(O,p) for O in(0,1,2) for p in('nn','pn','np','pp')],
        lambda D,O,p:[M1.sc_eval_u(D,O,p,ders_for(D,O,random.Random(1),tier),value=False,hints=D==1,deadline=DL(tier))])
    for D in (1,2):
        for O in orders(D,tier):
            for defs in cfgs(tier):
                rng=random.Random('C03s/%d/%d/%d/%s'%(seed,D,O,defs)); sc=[]
                for pers in itertools.product((False,True),repeat=D):
                    axs=[SP.Axis.from_knots(O,p,knots_for(O,p,(max(O+1,1) if p else 1)+2+d,rng)) for d,p in enumerate(pers)]
                    g=SGrid(axs)
                    for sy in ([(d,) for d in range(D)]): sc.append(sc_spline(g,sy,rng.randint(0,1<<30),hints=D==1,ders=ders_for(D,O,rng,tier),tag='-%d'%len(sc)))
                for i,c in enumerate(chunks(sc,8)): us.append(unit('C03',D,O,defs,c,tag='_s%d'%i))
    return us
def C04(tier,seed):
    def make(g,D,O,rng,defs):
        r=[]
        for d,a in enumerate(g.ax):
            if a.per:
                r.append(sc_period(g,d,rng.randint(0,1<<30),ders=ders_for(D,O,rng,tier)[:4]))
                r.append(sc_func(g,(d,),rng.randint(0,1<<30),ders=ders_for(D,O,rng,tier)[:2],tag='-per'))
        return r
    us=eval_units('C04',tier,[(O,'p') for O in ((0,1,2,3) if tier=='quick' else range(6))],[(1,'pn'),(1,'np'),(0,'pp')] if tier=='quick' else [(O,p) for O in(0,1,2) for p in('pn','np','pp')],
        lambda D,O,p:[M1.sc_eval_u(D,O,p,ders_for(D,O,random.Random(1),tier)[1:2],hints=False,deadline=DL(tier))])
    return us+per_axis_units('C04',tier,seed,make,6)
def C05(tier,seed):
    def make(g,D,O,rng,defs):
        dk=ders_for(D,O,rng,tier)
        r=[sc_func(g,sy,rng.randint(0,1<<30),checked=[dk[0],dk[-1],tuple((O+1)*(i==0) for i in range(D))],value=False,tag='-at') for sy in syms(D,tier)]
        return r
    return fp_units('C05',tier)+per_axis_units('C05',tier,seed,make,6)+std_units('C05',tier,seed,make)+float_units('C05',tier,seed,make,((),))
def fp_units(prop,tier):
    us=[]
    for O in range(6) if tier=='quick' else range(9):
        for defs in((),TESTCFG): us.append(unit(prop,1,O,defs,[FP_.sc_ends_fp(1,O,[(0,e)],ex,NODUM in defs) for e in(0,1) for ex in((0,1,4) if tier=='quick' else range(8))],tag='_fp'))
    for O in((2,) if tier=='quick' else (1,2,3)):
        us.append(unit(prop,2,O,(),[FP_.sc_ends_fp(2,O,k,1,False) for k in(((0,0),(0,1)),((1,0),(0,0)),((0,1),(1,1)),((1,1),(1,0)))],tag='_fp'))
    return us
def C11(tier,seed):
    def make(g,D,O,rng,defs):
        return [sc_proxy(g,sy,rng.randint(0,1<<30)) for sy in syms(D,tier)] if CELL in defs else [sc_func(g,sy,rng.randint(0,1<<30),tag='-plain') for sy in syms(D,tier)]
    us=per_axis_units('C11',tier,seed,make,6,cf=((CELL,),TESTCFG,()) if tier=='quick' else ALLCFG)
    return us+std_units('C11',tier,seed,make,cf=((CELL,),))+float_units('C11',tier,seed,make,((CELL,),))
def C12(tier,seed):
    def make(g,D,O,rng,defs):
        oth=mk(D,O,[((1-a.per) if d%2==0 else int(a.per),1-int(a.uniform),1+d) for d,a in enumerate(g.ax)],NODUM in defs,rng)
        return [sc_template(g,(rng.randrange(D),),rng.randint(0,1<<30),oth)]
    us=[]
    for std in('c++11','c++17'):
        us+=per_axis_units('C12',tier,seed,make,6,cf=((),TESTCFG) if tier=='quick' else ALLCFG,few=True,std=std)
    for O in((2,3) if tier=='quick' else range(6)):
        for defs in((),TESTCFG): us.append(unit('C12',1,O,defs,[sc_nodes_it(O,per,O+3,NODUM in defs) for per in(False,True)],tag='_it'))
    return us
def C14(tier,seed):
    us=fp_units('C14',tier)+per_axis_units('C14',tier,seed,lambda g,D,O,rng,defs:[sc_knots(g)],12,long=True)
    us+=std_units('C14',tier,seed,lambda g,D,O,rng,defs:[sc_knots(g)],12)+float_units('C14',tier,seed,lambda g,D,O,rng,defs:[sc_knots(g)])
    for O in (range(8) if tier=='quick' else range(12)):
        for defs in ((),(NODUM,)):
            for std in('c++11','c++17'):
                us.append(unit('C14',1,O,defs,[MK_.sc_knots_u(O,per,uni,NODUM in defs) for per in(False,True) for uni in(False,True)],std,tag='_u'))
    for O in orders(1,tier):
        for defs in cfgs(tier):
            nd=NODUM in defs; sc=[]
            for per in(False,True):
                for uni in(True,False):
                    for ex in(0,2): sc.append(sc_knots_sym(O,per,max(2,O+1+ex+(1 if per else 0)),nd,uni))
            if O in(0,2,3): sc+=[sc_nodes_it(O,per,O+3,nd) for per in(False,True)]
            us.append(unit('C14',1,O,defs,sc,tag='_sym'))
    return us
def band_units(prop,kind,pres,tier,seed,nmax):
    us=[]
    for pre in pres:
        sc=[kind(pre,n,p,q,seed*1000+n*100+p*10+q) for n,p,q in MB.shapes(pre,nmax,tier)]
        sc.sort(key=lambda s:s.name); random.Random(1).shuffle(sc)
        for i,c in enumerate(chunks(sc,(len(sc)+7)//8)): us.append(Unit('%s_%s_%d'%(prop,pre,i),MB.BAND,c,'c++17',()))
    return us
HOW=('ptr','vec','vip','vit','axis')
def lu_units(prop,pre,mem=False):
    us=[Unit('%s_u_%s_factor'%(prop,pre),MB.BAND,[MU.sc_factor_u(pre)],weight=60)]
    us+=[Unit('%s_u_%s_%s'%(prop,pre,h),MB.BAND,[MU.sc_solve_u(pre,h)],weight=20) for h in HOW]
    if not mem: us.append(Unit('%s_u_lemmas'%prop,MB.BAND,[MU.sc_closed(pre),MU.sc_lean('BandLU','recursions-imply-solution')],weight=30))
    return us
def store_units(prop,mem=False):
    us=[]
    for pre in('bm','em'):
        us.append(Unit('%s_u_%s_store'%(prop,pre),MB.BAND,[MU.sc_store_u(pre,x) for x in('independence','zero')],weight=10))
        if not mem: us.append(Unit('%s_u_%s_copy'%(prop,pre),MB.BAND,[MU.sc_store_u(pre,'copy')],weight=40))
        us.append(Unit('%s_u_%s_mul'%(prop,pre),MB.BAND,[MU.sc_mul_u(pre)],weight=40))
    return us
def C06(tier,seed): return lu_units('C06','bm')+band_units('C06',MB.sc_lu,('bm',),tier,seed,5 if tier=='quick' else 8)
def C07(tier,seed): return lu_units('C07','em')+band_units('C07',MB.sc_lu,('em',),tier,seed,7 if tier=='quick' else 10)
def C08(tier,seed): return store_units('C08')+band_units('C08',MB.sc_store,('bm','em'),tier,seed,5 if tier=='quick' else 8)
def C09(tier,seed):
    rng=random.Random('C09%d'%seed); us=[]
    for D in(1,2,3,4):
        S=[(1,)*D,tuple(range(2,2+D)),tuple(range(1+D,1,-1))]+[tuple(rng.randint(1,5-D//2) for _ in range(D)) for _ in range(3)]
        us.append(Unit('C09u_%d'%D,MB.mesh_src(D),[M1.sc_mesh_u(D,p) for p in ['index','inverse','onto']+[str(d) for d in range(D)]]))
        us.append(Unit('C09_%d'%D,MB.mesh_src(D),[MB.sc_mesh(D,d,seed+i) for i,d in enumerate(dict.fromkeys(S))],'c++17',()))
    return us
def C10(tier,seed):
    def make(g,D,O,rng,defs):
        r=[]
        for sy in syms(D,tier):
            dd=ders_for(D,O,rng,tier)[1:3]
            r.append(sc_mem(g,sy,rng.randint(0,1<<30),CELL in defs,None,dd))
            for c in ('eval','at','der')+(('proxy',) if CELL in defs else ()): r.append(sc_mem(g,sy,rng.randint(0,1<<30),CELL in defs,c,dd[:1]))
        return r
    us=per_axis_units('C10',tier,seed,make,20,few=True)+std_units('C10',tier,seed,make,20)
    us+=band_units('C10',MB.sc_lu,('bm','em'),tier,seed,4)+lu_units('C10','bm',True)+lu_units('C10','em',True)+store_units('C10',True)
    us+=eval_units('C10',tier,[(O,p) for O in ((0,1,2,3) if tier=='quick' else range(8)) for p in 'np'],[(1,'nn'),(1,'pn')] if tier=='quick' else [(O,p) for O in(0,1,2) for p in('nn','pn','np','pp')],
        lambda D,O,p:[M1.sc_eval_u(D,O,p,ders_for(D,O,random.Random(1),tier)[1:2],deadline=DL(tier))])
    us+=eq_units('C10',tier,(0,1,2) if tier=='quick' else range(6),((),(NODUM,)))
    for u in us:
        for s in u.scens: s.memonly=True
    return us
def C13(tier,seed):
    us=[]
    for D,O in((1,3),(2,3),(2,2),(3,1),(3,2)) if tier=='quick' else ((1,3),(1,2),(2,0),(2,1),(2,2),(2,3),(3,1),(3,2),(3,3)):
        for defs in ((MT,),(MT,)+TESTCFG) if tier=='quick' else [(MT,)+c for c in ALLCFG]:
            rng=random.Random('C13/%d/%d/%d/%s'%(seed,D,O,defs)); sc=[]
            L=[[(0,1,0)],[(1,0,3)]] if D==1 else [((0,1,2),(1,0,4)),((1,1,6),(0,0,1)),((0,1,12-O),(0,1,0))] if D==2 else [((0,1,1),(1,0,2),(0,1,0)),((1,1,0),(0,1,3),(0,0,1))]
            for s in L:
                g=mk(D,O,s,NODUM in defs,rng)
                if g: sc.append(sc_threads(g,rng.randint(0,1<<30)))
            for i,c in enumerate(chunks(sc,1 if D==3 else 2)): us.append(unit('C13',D,O,defs,c,'c++17' if O!=1 else 'c++11','_%d'%i))
    # every number of lines in a range: the split into blocks depends on its square root
    for O,defs in ((1,(MT,)),(2,(MT,)+TESTCFG)):
        rng=random.Random('C13h/%d/%d'%(seed,O)); sc=[]
        for h in range(1,(30 if O>1 else 90) if tier=='quick' else (70 if O>1 else 400),2):
            g=mk(2,O,((0,1,h),(0,1,0)),NODUM in defs,rng); sc.append(sc_threads(g,rng.randint(0,1<<30)))
            g=mk(2,O,((0,1,0),(h//2%2,1,h+1)),NODUM in defs,rng); sc.append(sc_threads(g,rng.randint(0,1<<30)))
        for h in () if O>1 else (144,168,225,255,257,300,577,1023,1025) if tier=='quick' else (1023,1024,1025,2500,4095,4096,4097,4225,5000):
            g=mk(2,O,((0,1,h-O-1),(0,1,0)),NODUM in defs,rng); sc.append(sc_threads(g,rng.randint(0,1<<30)))
            g=mk(2,O,((0,1,0),(0,1,h-O-1)),NODUM in defs,rng); sc.append(sc_threads(g,rng.randint(0,1<<30)))
        if O==1:
            g=mk(2,O,((0,1,4226-O-1),(0,1,0)),NODUM in defs,rng); sc.insert(0,sc_threads(g,rng.randint(0,1<<30)))
        for i in range(24): us.append(unit('C13',2,O,defs,sc[i::24],'c++17','_h%d'%i))
    return us
PROPS=dict(C10=C10,C13=C13,C06=C06,C07=C07,C08=C08,C09=C09,C01=C01,C02=C02,C03=C03,C04=C04,C05=C05,C11=C11,C12=C12,C14=C14)
def units(prop,tier,seed): return PROPS[prop](tier,seed)
