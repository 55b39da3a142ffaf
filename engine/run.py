"""Units (one compiled harness with a list of scenarios) and their execution, symbolic and native."""
import signal, os, sys, time, json, random, subprocess, traceback, ctypes, tempfile
from . import build, irparse as ir
from .vm import VM,Violation,Unsupported,VMError,PathEnd,CxxThrow
from .scen import SymAPI,MemAPI,NatAPI,NatFail

class Scen:
    """prep builds the objects (no branching on symbols: shared by all paths), body calls the code and states the contract"""
    def __init__(s,name,body,prep=None,mode='bounded',opts=None,hooks=(),axioms=(),deadline=None,native=True,covers=True,maxpaths=4000,nat_tries=40):
        s.name=name; s.body=body; s.prep=prep; s.mode=mode; s.opts=opts or {}; s.hooks=hooks; s.axioms=axioms
        s.deadline=deadline; s.native=native; s.covers=covers; s.maxpaths=maxpaths; s.nat_tries=nat_tries
class Unit:
    def __init__(s,key,src,scens,std='c++17',defs=(),private=False,weight=1):
        s.key=key; s.src=src; s.scens=scens; s.std=std; s.defs=tuple(defs); s.private=private; s.weight=weight

def run_unit(u,deadline=None):
    res=dict(key=u.key,scens=[],error=None)
    t0=time.time()
    try:
        p=build.emit_ir(u.src,u.key,u.std,u.defs); m=ir.parse_module(p)
    except build.BuildError as e:
        res['error']='build: '+str(e)[:1500]; res['wall']=time.time()-t0; return res
    except Exception as e:
        res['error']='extraction: '+repr(e)[:500]; res['wall']=time.time()-t0; return res
    res['build_s']=time.time()-t0
    for sc in u.scens:
        res['scens'].append(run_scen(m,sc,deadline))
    res['wall']=time.time()-t0
    return res
class _Alarm:
    """a wall-clock limit on one scenario; the signal repeats, so that no handler on the way can swallow it for long"""
    def __init__(s,dl): s.dl=dl
    def __enter__(s):
        if s.dl:
            def h(sig,fr): raise Unsupported('deadline')
            s.old=signal.signal(signal.SIGALRM,h); signal.setitimer(signal.ITIMER_REAL,max(0.5,s.dl-time.time()),5)
    def __exit__(s,*a):
        if s.dl: signal.setitimer(signal.ITIMER_REAL,0); signal.signal(signal.SIGALRM,s.old)
def run_scen(m,sc,deadline=None):
    dl=min(x for x in(deadline or 1e18,time.time()+(sc.deadline or SCEN_LIMIT)))
    if time.time()>dl: return dict(name=sc.name,mode=sc.mode,status='undecided',failures=[],note='unsupported: deadline',outcomes={},wall=0.)
    try:
        with _Alarm(dl): return run_scen_(m,sc,dl)
    except Unsupported: return dict(name=sc.name,mode=sc.mode,status='undecided',failures=[],note='unsupported: deadline',outcomes={},wall=0.)
SCEN_LIMIT=200
def run_scen_(m,sc,deadline=None):
    t0=time.time()
    r=dict(name=sc.name,mode=sc.mode,status='ok',failures=[],note='',outcomes={})
    X=None
    try:
        X=VM(m,hooks=sc.hooks,opts=dict(sc.opts))
        X.axioms=list(sc.axioms)
        if getattr(sc,'cut',None): sc.cut(X)
        dl=time.time()+sc.deadline if sc.deadline else None
        if deadline: dl=min(dl,deadline) if dl else deadline
        X.deadline=dl
        api=(MemAPI if getattr(sc,'memonly',False) else SymAPI)(X); ctx=None
        try:
            if sc.prep is not None:
                X.work=[]; X.reset(()); ctx=sc.prep(api); X.freeze()
            out=X.explore(lambda X: sc.body(api,ctx),maxpaths=sc.maxpaths,deadline=dl)
            oc={}
            for k,v,p in out: oc[k]=oc.get(k,0)+1
            r['outcomes']=oc
            if any(k=='throw' for k,_,_ in out):
                X.failures.append(dict(kind='exception',msg='unexpected exception '+str([v for k,v,_ in out if k=='throw'][:3]),path=[],model={}))
            if sc.covers and not any(k=='ret' for k,_,_ in out) and not X.failures:
                r['status']='vacuous'; r['note']='no path reached the end of the scenario'
        except Violation as e:
            if os.environ.get("VDBG"): traceback.print_exc()
            try: X.fail(e.kind,e.msg)
            except Unsupported: pass
        except CxxThrow as e:
            X.failures.append(dict(kind='exception',msg='unexpected exception '+e.ty,path=[],model={}))
        except AssertionError as e:
            r['status']='undecided'; r['note']='control flow of the construction depends on symbols'
        except Unsupported as e:
            if not X.failures: r['status']='undecided'; r['note']='unsupported: '+str(e)[:300]
        except VMError as e:
            if not X.failures: r['status']='undecided'; r['note']=type(e).__name__+': '+str(e)[:300]
        except RecursionError as e:
            r['status']='undecided'; r['note']='recursion'
        except Exception as e:
            r['status']='undecided'; r['note']='internal: '+traceback.format_exc()[-700:]
        if X.failures: r['status']='fail'; r['failures']=X.failures[:3]
        r['stats']=dict(X.stats); r['kinds']=dict(X.obl_kinds); r['funcs']=sorted(X.funcs_used); r['assumed']=sorted(X.assumed)
    except Exception as e:
        r['status']='undecided'; r['note']='internal: '+traceback.format_exc()[-700:]
    r['wall']=time.time()-t0
    return r

# ---------------------------------------------------------------- native
ASAN={}
def asan_lib(n='libasan.so'):
    if n not in ASAN: ASAN[n]=subprocess.run(['g++','-print-file-name='+n],capture_output=True,text=True).stdout.strip()
    return ASAN[n]
def build_native(u,asan=True):
    fl=['-O1','-g','-shared','-fPIC','-DNATIVE_']+(['-fsanitize=address'] if asan else [])
    if u.std in('c++11','c++14'):
        try: return build.native(u.src,'n_'+u.key,u.std,u.defs,fl+['-DODR_DEFS_'],'g++')
        except build.BuildError: pass
    return build.native(u.src,'n_'+u.key,u.std,u.defs,fl,'g++')
def native_child(so,u,sc,models,seed,tries,out):
    """run in a child process: scenario against the compiled library"""
    lib=ctypes.CDLL(so)
    n=0
    for i in range(tries+len(models)):
        rng=random.Random(seed*1000003+i)
        api=NatAPI(lib,rng,models[i] if i<len(models) else None,getattr(sc,'tol',1e-6))
        json.dump(dict(running=i,inputs={}),open(out+'.cur','w'))
        def note():
            json.dump(dict(running=i,inputs=api.inputs,trace=api.trace[-40:]),open(out+'.cur','w'))
        api.note=note
        if getattr(sc,'memonly',False): api.eq=api.check=api.ieq=lambda *a,**k:True
        orig=api._arg
        try:
            for f in ('call','calld','callz','throws'):
                g=getattr(api,f)
                def w(fn,*a,_g=g):
                    api.pending=fn; note(); return _g(fn,*a)
                setattr(api,f,w)
            ctx=sc.prep(api) if sc.prep else None
            sc.body(api,ctx)
            n+=api.ncheck
        except PathEnd: continue
        except NatFail as e:
            json.dump(dict(fail=str(e),inputs=api.inputs,trace=api.trace[-60:],seed=seed,index=i),open(out,'w'),indent=1); return 1
    json.dump(dict(fail=None,checks=n,runs=tries+len(models)),open(out,'w'))
    return 0
def native_try(prop,tier,u,sc,models,seed,tries=None,timeout=60,asan=True):
    """returns None (no failing input found), or a dict describing the failing input"""
    try: so=build_native(u,asan)
    except build.BuildError as e: return None
    d=build.workdir(); out=os.path.join(d,'nat_%d.json'%random.randrange(1<<40))
    mf=out+'.models'; json.dump(models,open(mf,'w'))
    env=dict(os.environ); 
    if asan:
        env['LD_PRELOAD']=asan_lib()+' '+asan_lib('libstdc++.so.6');      # (the exception interceptor needs libstdc++ from the start)
        env['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0:exitcode=66:log_path='+out+'.asan'
    cmd=[sys.executable,'/verif/check.py','--child',prop,tier,u.key,sc.name,so,mf,str(seed),str(tries if tries is not None else sc.nat_tries),out]
    try: r=subprocess.run(cmd,env=env,capture_output=True,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: return None
    if os.path.exists(out):
        j=json.load(open(out))
        if j.get('fail'): return dict(kind='wrong result',detail=j['fail'],inputs=j['inputs'],calls=j['trace'],scenario=sc.name,unit=u.key)
        return dict(kind=None,checks=j.get('checks',0),runs=j.get('runs',0))
    # died
    cur={}
    try: cur=json.load(open(out+'.cur'))
    except Exception: pass
    import glob
    log=''.join(open(f,errors='replace').read()[:3000] for f in glob.glob(out+'.asan*'))
    if 'AddressSanitizer: CHECK failed' in log: return dict(kind=None,note='sanitizer failure '+log[:300])
    if r.returncode==66 or r.returncode<0 or 'AddressSanitizer' in log or 'terminate called' in r.stderr:
        return dict(kind='crash',detail=(log or r.stderr)[-2500:] or 'exit %d'%r.returncode,inputs=cur.get('inputs'),calls=cur.get('trace'),scenario=sc.name,unit=u.key)
    return dict(kind=None,note='child error rc=%d %s'%(r.returncode,r.stderr[-400:]))
