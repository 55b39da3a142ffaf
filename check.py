#!/bin/sh
''':'
exec python3-vt "$0" "$@"
'''
"""check.py <property> [--tier quick|thorough]      decide a property on /repo's current tree
check.py --child ...                                run one scenario against the compiled code (used for replay)
check.py --replay <replay.json>                     re-run a recorded violation"""
import sys, os, json, time, random, multiprocessing as mp, signal
ROOT=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,ROOT)
from engine import tasks, run, build
def child(a):
    prop,tier,ukey,sname,so,mf,seed,tries,out=a
    u=next(u for u in tasks.units(prop,tier,int(os.environ.get('VERIF_SEED','1'))) if u.key==ukey)
    sc=next(s for s in u.scens if s.name==sname)
    return run.native_child(so,u,sc,json.load(open(mf)),int(seed),int(tries),out)
def work(a):
    prop,tier,seed,i,deadline=a
    u=tasks.units(prop,tier,seed)[i]
    return i,run.run_unit(u,deadline)
def main():
    if sys.argv[1]=='--child': sys.exit(child(sys.argv[2:]))
    if sys.argv[1]=='--replay': sys.exit(replay(sys.argv[2]))
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time()
    if tier!='quick': run.SCEN_LIMIT=1800
    budget=int(os.environ.get('VERIF_BUDGET','420' if tier=='quick' else '7200'))
    build.workdir()
    us=tasks.units(prop,tier,seed)
    order=sorted(range(len(us)),key=lambda i:-us[i].weight)
    res={}
    nproc=min(int(os.environ.get('VERIF_JOBS','8')),len(us)) or 1
    with mp.get_context('fork').Pool(nproc,maxtasksperchild=4) as pool:
        for i,r in pool.imap_unordered(work,[(prop,tier,seed,i,t0+budget) for i in order]):
            res[i]=r
            if '-v' in sys.argv: print('%s %.1fs %s'%(r['key'],r['wall'],r['error'] or ' '.join(s['name']+':'+s['status']+(' '+s['note'][-160:].replace('\n',' ') if s['note'] else '') for s in r['scens'] if s['status']!='ok')),file=sys.stderr)
    rs=[res[i] for i in range(len(us))]
    fails=[]
    for i,r in enumerate(rs):
        for sc,sr in zip(us[i].scens,r['scens']):
            if sr['status']=='fail': fails.append((us[i],sc,sr))
    viol=[]; code=0; best=None; tnat=time.time()
    # look for a failing input on the compiled code; an over-approximating (soft) scenario counts only with one
    hard=[f for f in fails if not getattr(f[1],'soft',False)]
    cand=[f for f in hard if f[1].native][:10]+[f for f in fails if getattr(f[1],'soft',False)][:10]
    for u,sc,sr in cand:
        if not sc.native or time.time()-tnat>180: continue
        models=[f['model'] for f in sr['failures'] if f.get('model')]
        n=run.native_try(prop,tier,u,sc,models,seed)
        if '-v' in sys.argv: print('native',u.key,sc.name,str(n)[:300],file=sys.stderr)
        if n and n.get('kind'): best=(u,sc,sr,n); break
    # a scenario the engine could not decide is at least tried against the compiled code
    if not hard and not best:
        und=[(us[i],sc,sr) for i,r in enumerate(rs) for sc,sr in zip(us[i].scens,r['scens']) if sr['status']=='undecided' and sc.native]
        und+=[(us[i],sc,dict(status='undecided',failures=[],note=r['error'])) for i,r in enumerate(rs) if r['error'] and 'extraction' in r['error'] for sc in us[i].scens if sc.native]
        random.Random(seed).shuffle(und)
        for u,sc,sr in und[:40]:
            if time.time()-tnat>240: break
            n=run.native_try(prop,tier,u,sc,[],seed)
            if '-v' in sys.argv: print('native',u.key,sc.name,str(n)[:300],file=sys.stderr)
            if n and n.get('kind'): best=(u,sc,sr,n); sr['failures']=[dict(kind='undecided',msg='obligations not generated ('+sr['note'][-200:]+'); failing input found',path=[],model={})]; break
    for u,sc,sr in fails:
        if getattr(sc,'soft',False) and not(best and best[1] is sc): sr['status']='undecided'; sr['note']='over-approximation not proved: '+sr['failures'][0]['msg'][:200]
    if hard or best:
        code=1
        os.makedirs(ROOT+'/evidence/replay',exist_ok=True)
        u,sc,sr,n=best or (sorted(hard,key=lambda f:f[1].native)[0]+(None,))
        fails=hard or [best[:3]]
        path='%s/evidence/replay/%s.json'%(ROOT,prop)
        json.dump(dict(property=prop,tier=tier,seed=seed,unit=u.key,scenario=sc.name,std=u.std,defs=list(u.defs),
            failed_obligations=[dict(unit=a.key,scenario=b.name,kind=f['kind'],obligation=f['msg'],path=f['path'],counterexample=f['model']) for a,b,c in fails for f in c['failures']][:40],
            failing_input=n),open(path,'w'),indent=1)
        for a,b,c in fails[:8]:
            for f in c['failures'][:1]: print('failed obligation: %s %s [%s] %s'%(a.key,b.name,f['kind'],f['msg'][:300]))
        if n: print('failing input on the compiled code: %s'%(str(n.get('detail'))[:600]))
        print('VIOLATION property=%s replay=%s%s'%(prop,path,'' if n else ' no-failing-input-found'))
        viol=[dict(property=prop,replay=path,obligations=len(fails))]
    evidence(prop,tier,seed,us,rs,time.time()-t0,viol)
    und=[(r['key'],s['name'],s['note']) for r in rs for s in r['scens'] if s['status'] in('undecided','vacuous')]
    err=[(r['key'],r['error']) for r in rs if r['error']]
    st=total(rs)
    print('%s: %d units, %d scenarios, %d obligations, %d discharged, %d undecided scenarios, %d units not extracted, %.1fs'%(prop,len(us),sum(len(r['scens']) for r in rs),st['obl'],st['dis'],len(und),len(err),time.time()-t0))
    for k,n,note in und[:5]: print('undecided: %s %s: %s'%(k,n,note[-200:].replace('\n',' ')))
    for k,e in err[:5]: print('not extracted: %s: %s'%(k,e[-300:]))
    sys.exit(code)
def total(rs):
    t={}
    for r in rs:
        for s in r['scens']:
            for k,v in (s.get('stats') or {}).items(): t[k]=t.get(k,0)+v
    for k in('obl','dis','q','tq','paths','syn','z3','exact','pit','ac'): t.setdefault(k,0)
    return t
def evidence(prop,tier,seed,us,rs,wall,viol):
    os.makedirs(ROOT+'/evidence',exist_ok=True)
    st=total(rs)
    funcs=sorted({f for r in rs for s in r['scens'] for f in s.get('funcs',())}); ass=sorted({f for r in rs for s in r['scens'] for f in s.get('assumed',())})
    kinds={}
    for r in rs:
        for s in r['scens']:
            for k,v in (s.get('kinds') or {}).items(): kinds[k]=kinds.get(k,0)+v
    und=[dict(unit=r['key'],scenario=s['name'],why=s['note'][-300:]) for r in rs for s in r['scens'] if s['status'] in('undecided','vacuous')]
    modes={}
    for u,r in zip(us,rs):
        for sc,s in zip(u.scens,r['scens']):
            m=modes.setdefault(sc.mode,dict(scenarios=0,decided=0,obligations=0,discharged=0)); m['scenarios']+=1; m['decided']+=s['status'] in('ok','fail')
            m['obligations']+=(s.get('stats') or {}).get('obl',0); m['discharged']+=(s.get('stats') or {}).get('dis',0)
    from engine import info
    d=dict(property=prop,tier=tier,seed=seed,level=info.LEVEL.get(prop,'proof'),
        coverage=dict(obligations=st['obl'],discharged=st['dis'],checker_cmd='python3-vt /verif/check.py %s --tier %s'%(prop,tier),trusted_base=info.TRUST,
            by_kind=kinds,by_mode=modes,functions_under_contract=funcs,number_of_functions=len(funcs),
            back_ends=dict(syntactic=st['syn'],z3=st['z3'],exact_rational_function_normal_form=st['exact'],ac_normal_form=st['ac'],polynomial_identity_testing=st['pit']),
            paths=st['paths'],solver_queries=st['q'],solver_time_s=round(st['tq'],2),
            units=[dict(unit=u.key,std=u.std,defs=list(u.defs),scenarios=[s['name']+':'+s['status'] for s in r['scens']],error=r['error']) for u,r in zip(us,rs)],
            undecided=und,violations_found=viol,callee_contracts=info.proved(ass),bounded_and_unbounded=info.BOUNDS.get(prop,'')),
        assumptions=info.ASSUME+info.assumed(ass),wall_s=round(wall,2),violations=len(viol))
    json.dump(d,open('%s/evidence/%s.json'%(ROOT,prop),'w'),indent=1)
def replay(path):
    j=json.load(open(path)); 
    u=next(u for u in tasks.units(j['property'],j['tier'],j['seed']) if u.key==j['unit'])
    sc=next(s for s in u.scens if s.name==j['scenario'])
    build.workdir()
    models=[f['counterexample'] for f in j['failed_obligations'] if f['unit']==u.key and f['scenario']==sc.name]
    n=run.native_try(j['property'],j['tier'],u,sc,models,j['seed'])
    print(json.dumps(n,indent=1)[:4000])
    return 1 if n and n.get('kind') else 0
if __name__=='__main__': main()
