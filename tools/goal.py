#!/usr/bin/env python3
# goal.py FILE [depth]: expands the definitions in the last assertion of a dumped query
import re,sys
t=open(sys.argv[1]).read(); dep=int(sys.argv[2]) if len(sys.argv)>2 else 4
defs={}
for m in re.finditer(r'^\(define-fun (\S+) \(\) .*?$',t,re.M):
    line=m.group(0); rest=line[len('(define-fun '+m.group(1)+' () '):-1]
    if rest[0]=='(':
        d=0
        for i,c in enumerate(rest):
            d+= c=='('; d-= c==')'
            if d==0: break
        body=rest[i+1:].strip()
    else: body=rest.split(' ',1)[1]
    defs[m.group(1)]=body
def ex(s,d):
    return s if d==0 else re.sub(r'd!\d+',lambda m: ex(defs.get(m.group(0),m.group(0)),d-1),s)
for l in t.split('\n'):
    if l.startswith('(assert'): g=l
print(ex(g,dep)[:4000])
