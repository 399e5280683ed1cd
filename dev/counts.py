#!/usr/bin/env python3
"""Lists the planted bugs that change no line the original repository had (they do not count):
every removed line, and for a pure addition both neighbouring lines, came with a fix commit."""
import subprocess,os
base=open('/root/.vp/base').read().strip() if os.path.exists('/root/.vp/base') else 'e3a5cab'
r='/repo'
def lines(f):
    return subprocess.run(['git','-C',r,'show',f'{base}:{f}'],capture_output=True,text=True).stdout.split('\n')
for d in sorted(os.listdir('/verif/seeded')):
    orig=own=0; nb=0; f=None; b=[]; L=open(f'/verif/seeded/{d}/patch.diff').read().split('\n')
    for i,l in enumerate(L):
        if l.startswith('--- a/'): f=l[6:]; b=lines(f)
        elif l.startswith('-'):
            if l[1:].strip() in ('','{','}',')','('): continue
            if l[1:] in b: orig+=1
            else: own+=1
        elif l.startswith('+') and not l.startswith('+++'):
            for j in (i-1,i+1):
                if L[j].startswith(' ') and L[j].strip() not in ('','{','}',')','(') and L[j][1:] in b: nb+=1
    if orig==0: print(d,'own',own,'original neighbours',nb)
