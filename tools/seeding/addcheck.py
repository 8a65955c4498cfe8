import json,sys
p='/verif/checks.json'
c=json.load(open(p)); c.update(json.load(sys.stdin))
open(p,'w').write('{\n'+',\n'.join(' '+json.dumps(k)+': '+json.dumps(c[k]) for k in sorted(c))+'\n}\n')
