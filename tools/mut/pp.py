import json,sys
d=json.load(open('/tmp/facts/henriks_parsing_project-rlib.json'))
pat=sys.argv[1]
for k,f in d['fns'].items():
    if pat in k:
        print('==',f['path'],f['name'],'local',f['local'],f['kind'],'argc',f['argc'],'impl',f.get('impl_self'),f.get('impl_trait'),'pub',f.get('pub'), 'spread',f.get('spread'),'upv',f.get('upv'))
        for i,l in enumerate(f['locals']): print('  _%d:'%i,l)
        for i,b in enumerate(f['blocks']):
            print(' bb%d%s'%(i,' cu' if b.get('cu') else ''))
            for s in b['s']: 
                s=dict(s); s.pop('sp',None); print('   ',json.dumps(s))
            t=dict(b['t']); t.pop('sp',None); print('    ->',json.dumps(t))
