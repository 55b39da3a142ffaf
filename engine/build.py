"""Mechanical extraction: compile a harness that includes /repo's headers to LLVM IR, from the current working tree."""
import os, subprocess, hashlib, tempfile, atexit, shutil
REPO=os.environ.get('VERIF_REPO','/repo')
_dir=None
def workdir():
    global _dir
    if _dir is None:
        _dir=tempfile.mkdtemp(prefix='verif_'); pid=os.getpid()
        atexit.register(lambda: shutil.rmtree(_dir,ignore_errors=True) if os.getpid()==pid else None)
    return _dir
O0=['-O0','-Xclang','-disable-O0-optnone']
O1=['-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops']
class BuildError(Exception): pass
def emit_ir(src,name,std='c++17',defs=(),opt='O0',passes='mem2reg'):
    d=workdir(); h=hashlib.sha1(repr((src,std,tuple(defs),opt,passes)).encode()).hexdigest()[:10]
    base=os.path.join(d,name+'_'+h)
    open(base+'.cpp','w').write(src)
    cmd=['clang++','-std='+std]+(O0 if opt=='O0' else O1)+['-ffp-contract=off','-w','-I'+REPO+'/src/include','-I/verif/harness']+['-D'+x for x in defs]+['-S','-emit-llvm',base+'.cpp','-o',base+'.ll']
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise BuildError(r.stderr[-4000:])
    if passes:
        r=subprocess.run(['opt-18' if shutil.which('opt-18') else 'opt','-S','-passes='+passes,base+'.ll','-o',base+'.m.ll'],capture_output=True,text=True)
        if r.returncode: raise BuildError(r.stderr[-4000:])
        return base+'.m.ll'
    return base+'.ll'
def native(src,name,std='c++17',defs=(),flags=('-O1',),cxx='g++'):
    d=workdir(); h=hashlib.sha1(repr((src,std,tuple(defs),tuple(flags),cxx)).encode()).hexdigest()[:10]
    base=os.path.join(d,name+'_'+h)
    open(base+'.cpp','w').write(src)
    cmd=[cxx,'-std='+std]+list(flags)+['-w','-I'+REPO+'/src/include','-I/verif/harness']+['-D'+x for x in defs]+[base+'.cpp','-o',base,'-pthread']
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise BuildError(r.stderr[-4000:])
    return base
