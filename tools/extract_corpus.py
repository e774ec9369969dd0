#!/usr/bin/env python3
"""Extracts the sources of /repo/tests/cases into sim/corpus/cases.json (run once; committed)."""
import re,os,json
out=[]
seen=set()
root='/repo/tests/cases'
for d,_,fs in sorted(os.walk(root)):
    for f in sorted(fs):
        if not f.endswith('.md'): continue
        s=open(os.path.join(d,f),encoding='utf8').read()
        m=re.search(r'^### Source[^\n]*\n(?:(?!###|```)[^\n]*\n)*```js([^\n]*)\n(.*?)\n?```',s,re.S|re.M)
        if not m: print('skip',d,f); continue
        a=m.group(1)
        t='program'
        mm=re.search(r'parse:(\w+)',a)
        if mm: t=mm.group(1)
        mod='source:module' in a or 'source-module' in d
        k=(m.group(2),t,mod)
        if k in seen: continue
        seen.add(k)
        out.append(dict(src=m.group(2),type=t,module=mod,name=os.path.relpath(os.path.join(d,f),root)[:-3]))
json.dump(out,open('/verif/sim/corpus/cases.json','w'),ensure_ascii=False,indent=0)
print(len(out))
