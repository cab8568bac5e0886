#!/usr/bin/env python3
# ONE-OFF (run once while writing the reference model; its output src/tables.rs is committed and frozen,
# no check runs this).  Collects the coefficient tables of the pinned commit.
import re,os
R='/repo/src'
out=[]
seen=set()
for d,_,fs in sorted(os.walk(R)):
    for f in sorted(fs):
        if not f.endswith('.rs'): continue
        s=open(os.path.join(d,f),encoding='utf8').read()
        fn=''
        pos=0
        for m in re.finditer(r'\bfn\s+(\w+)|(?:pub\s+)?(?:const|static|let)\s+(\w+)\s*:\s*(\[[^=]*?)\s*=\s*\[',s):
            if m.group(1): fn=m.group(1); continue
            name,ty=m.group(2),m.group(3)
            if name=='steps': continue
            # match bracket
            i=m.end(); depth=1
            while depth:
                c=s[i]
                if c=='[':depth+=1
                elif c==']':depth-=1
                i+=1
            body=s[m.end():i-1]
            body=re.sub(r'//[^\n]*','',body)
            indented = s[s.rfind('\n',0,m.start())+1:m.start()]!=''
            scope=fn if indented else f[:-3]
            nm=(scope+'_'+name).upper()
            assert nm not in seen,nm
            seen.add(nm)
            ty2=re.sub(r'^\[(.*);\s*\d+\]$',r'\1',ty.strip())
            out.append(f'pub const {nm}: &[{ty2}] = &[{body}];\n')
open('/verif/mc/src/tables.rs','w').write('// Frozen coefficient tables of IAPWS-IF97 and companion releases (see DESIGN.md, "Reference model").\n#![allow(clippy::all)]\n#[rustfmt::skip]\n'.replace('#[rustfmt::skip]\n','')+'\n'.join(out))
print(len(out)); print('\n'.join(sorted(seen)))
