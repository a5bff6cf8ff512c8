#!/usr/bin/env python3
"""Developer view of a Verus run: error, function under contract, source line."""
import re,sys,subprocess,bisect
gen='/verif/build/gen/gen.rs'
marks=[];stack=[]
for n,l in enumerate(open(gen),1):
    for m in re.finditer(r'/\*@F (\S+?)\*/|/\*@E\*/|/\*@M (\S+)\*/',l):
        if m.group(1): stack.append((m.group(1),n))
        elif m.group(2): marks.append((n,10**9,'mod '+m.group(2)))
        elif stack:
            k,a=stack.pop(); marks.append((a,n,k))
def fn(n):
    c=[m for m in marks if m[0]<=n<=m[1]]
    return max(c)[2] if c else '?'
p=subprocess.run(['verus','gen.rs']+sys.argv[1:],cwd='/verif/build/gen',capture_output=True,text=True)
t=p.stderr+p.stdout
for b in re.split(r'\n(?=error|note: function body|warning)',t):
    if not b.startswith('error'): continue
    m=re.search(r'--> gen.rs:(\d+)',b)
    if not m: print(b.strip()[:600]); continue
    n=int(m.group(1))
    print('###',fn(n),'|',n)
    print('\n'.join(x for x in b.split('\n') if x.strip() and x.strip()!='|')[:int(1500)])
print(re.findall(r'verification results.*',t))
