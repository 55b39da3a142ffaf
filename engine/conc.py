"""Contract of the thread pool for C13: a queued task runs exactly once, at any time between queue_task and the return of its
future's get(), concurrently with the other tasks and the caller. Every access of a task to memory it shares is recorded;
obligations: no write of one agent overlaps an access of a concurrent agent, every task is joined before the call returns."""
from .vm import NULL,Unsupported,Violation
def st_(X): return X.ghost.setdefault('conc',Conc())
class Conc:
    def __init__(s): s.tasks=[]; s.seg=0; s.main={}
    def copy(s): return s
class Task: pass
def newseg(X,c):
    c.seg+=1; X.acc=c.main[c.seg]=(set(),set())
def v_task(X,d,clo,run,fut):
    c=st_(X); t=Task(); t.clo=clo; t.run=run; t.id=len(c.tasks); t.got=False; t.born=X.next; t.q=c.seg+1
    o=X.new(8,'heap','future%d'%t.id); X.mem[o[0]].c[0]=t.id
    c.tasks.append(t); t.fut=o
    X.ns['st'](fut,o)
    newseg(X,c)
    return None
def get(X,d,fut):
    c=st_(X); o=X.ns['ldp'](fut)
    if o==NULL: raise Violation('join','get() on an empty future')
    t=c.tasks[X.mem[o[0]].c[0]]
    if t.got: raise Violation('join','future used twice')
    t.got=True
    newseg(X,c)
    t.g=c.seg
    n0=X.next; old=X.acc; X.acc=(set(),set()); c.cur=t.id
    X.icall(t.run,t.clo)
    own=t.clo[0]
    t.R={a for a in X.acc[0] if a[0]<n0 and a[0]!=own}; t.W={a for a in X.acc[1] if a[0]<n0 and a[0]!=own}
    X.acc=old
    X.ns['st'](fut,NULL)
    return None
def bytes_(S):
    r=set()
    for o,f,n in S:
        if n==8 and f%8==0: r.add((o,f//8))
        else:
            for b in range(f//8,(f+n+7)//8): r.add((o,b))
    return r
def finish(X):
    """obligations at the return of the constructing call"""
    c=X.ghost.get('conc')
    if c is None: return 0
    X.acc=None
    for t in c.tasks: X.oblige('join',t.got,'task %d is not joined before the call returns'%t.id)
    m=sum(1 for t in c.tasks)
    mb={}
    for t in c.tasks: t.Rb,t.Wb=bytes_(t.R),bytes_(t.W)
    for i,t in enumerate(c.tasks):
        for u in c.tasks[i+1:]:
            if u.q>=t.g: continue           # queued after t was joined
            x=(t.Wb&(u.Rb|u.Wb))|(u.Wb&t.Rb)
            X.oblige('race',not x,'tasks %d and %d access the same element %s'%(t.id,u.id,sorted(x)[:2]))
        R=set();W=set()
        for sg in range(t.q,t.g):
            r,w=c.main.get(sg,((),()))
            R|=bytes_(r); W|=bytes_(w)
        x=(t.Wb&(R|W))|(W&t.Rb)
        x={a for a in x if a[0]!=t.fut[0]}
        X.oblige('race',not x,'task %d and the constructing thread access the same element %s'%(t.id,sorted(x)[:2]))
    X.ghost['conc']=None; del X.ghost['conc']
    return m
def start(X):
    X.ghost['conc']=Conc(); newseg(X,X.ghost['conc'])
HOOKS=[(r'^v_task$',v_task),(r'^std::future<void>::get\(\)$',get),(r'^std::__basic_future<void>::wait\(\)',lambda X,d,f: get_keep(X,d,f))]
def get_keep(X,d,fut):
    o=X.ns['ldp'](fut); c=st_(X); t=c.tasks[X.mem[o[0]].c[0]]
    if not t.got: get(X,d,fut); X.ns['st'](fut,o)
