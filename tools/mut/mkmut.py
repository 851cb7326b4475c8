"""mkmut.py mX.py name dir: make a mutated copy"""
import sys,shutil,importlib.util
spec=importlib.util.spec_from_file_location('m',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
x=[x for x in m.M if x[0]==sys.argv[2]][0]
d=sys.argv[3]; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('target','.git'))
for f,old,new in x[1]:
    p=d+'/src/'+f; s=open(p).read(); assert old in s; s=s.replace(old,new,1); open(p,'w').write(s)
