import json,glob,os
rows=[]
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(p)); i=os.path.basename(os.path.dirname(p))
    rows.append('| %s | %s | %s |'%(i,m['property'],m['needs'].replace('\n',' ').replace('|','\\|')))
t='## Planted bugs\n\nEach is caught by the quick check of the property it names (built, run through the 29 tests and through its demo).\n\n| bug | caught by | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n'
d=open('/verif/DESIGN.md').read()
if '@@PROPERTIES@@' in d:
    props=open('/tmp/d/props.md').read()
    d=d.replace('@@PROPERTIES@@\n',props.rstrip()+'\n')
if '## Planted bugs' in d:
    a=d.index('## Planted bugs'); d=d[:a]
d=d.rstrip()+'\n\n'+t
open('/verif/DESIGN.md','w').write(d)
