"""usage: mut.py FILE.py [names]  -- each mutant: name, file, [(old,new)], expected prop or None(quiet)"""
import re,sys,subprocess,os,shutil,importlib.util,concurrent.futures as cf
spec=importlib.util.spec_from_file_location('m',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want=sys.argv[2:]
def one(mu):
    name,edits,props,expect=mu
    d='/tmp/mut/'+name
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('target','.git'))
    for f,old,new in edits:
        p=d+'/src/'+f; s=open(p).read()
        if s.count(old)<1: return name,'NOMATCH %r'%old
        s=s.replace(old,new,1); open(p,'w').write(s)
    t=''
    if '--test' in os.environ.get('MUT',''):
        r=subprocess.run('CARGO_TARGET_DIR=%s/target cargo test --offline -q 2>&1 | tail -60'%d,shell=True,cwd=d,capture_output=True,text=True)
        t='T:'+' '.join(re.findall(r'\d+ failed|could not compile',r.stdout))
    e=dict(os.environ,VERIF_REPO=d,VERIF_OUT='/tmp/mut/out/'+name)
    e.pop('VERIF_FACTS',None)
    r=subprocess.run(['python3','/verif/check.py']+props,env=e,capture_output=True,text=True)
    shutil.rmtree(d,ignore_errors=True)
    got=sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
    ok=(got==[] if expect is None else expect in got)
    out=[l for l in r.stdout.splitlines() if l.startswith('  ') or 'undecided' in l]
    return name,('ok   ' if ok else 'MISS ' if expect else 'FALSE')+' got=%s rc=%d %s'%(got,r.returncode,t)+('' if ok and not os.environ.get('V') else '\n   '+'\n   '.join(x[:220] for x in out[:14])+r.stderr[-1500:])
ms=[x for x in m.M if not want or x[0] in want]
with cf.ThreadPoolExecutor(6) as ex:
    for n,o in ex.map(one,ms): print('%-22s %s'%(n,o),flush=True)
