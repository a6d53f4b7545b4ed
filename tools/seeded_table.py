#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| change | caught by | needs |','|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append('| %s | %s | %s |'%(os.path.basename(d[:-1]),m['property'],m['needs']))
t=open(V+'/DESIGN.md').read()
t=re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)',lambda m:m.group(1)+'\n'.join(rows)+'\n'+m.group(2),t,flags=re.S)
open(V+'/DESIGN.md','w').write(t)
