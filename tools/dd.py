#!/usr/bin/env python3
"""dd.py FILE PATTERN [--std]: reduce a space separated text while `spc` still prints PATTERN"""
import subprocess,sys,re
f,pat=sys.argv[1:3]; ex=sys.argv[3:]
def bad(t):
    open('/tmp/dd.spade','w').write(' '.join(t))
    r=subprocess.run(['/usr/local/bin/spc','/tmp/dd.spade',*ex],capture_output=True,text=True,timeout=60)
    return re.search(pat,r.stdout) is not None
t=open(f).read().split()
assert bad(t)
n=len(t)//2
while True:
    i=0; any_=False
    while i<len(t):
        u=t[:i]+t[i+n:]
        if bad(u): t=u; any_=True
        else: i+=n
    if n==1 and not any_: break
    n=max(1,n//2)
open('/tmp/dd.out','w').write(' '.join(t))
print(' '.join(t))
