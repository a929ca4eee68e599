import json,os,glob
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['what_it_breaks'],m['needs']))
t='| change | property (its check reports it, with a failing input) | what it breaks | what it needs |\n|---|---|---|---|\n'+'\n'.join(rows)
s=open('/verif/DESIGN.md').read()
import re
if '@SEEDS@' in s: s=s.replace('@SEEDS@','<!-- seeds -->\n'+t+'\n<!-- /seeds -->')
else: s=re.sub(r'<!-- seeds -->\n.*?\n<!-- /seeds -->',lambda m:'<!-- seeds -->\n'+t+'\n<!-- /seeds -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
