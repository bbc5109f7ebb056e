#!/usr/bin/env python3
"""One-off generator of the reference tables in harness/src (run at authoring
time only; the checks use the committed output and never read these sources).
EPV00 coefficients come from the Fortran source shipped in the repository
(fortran/epv00.for), not from the Rust table under test."""
import re,sys
src=open('/repo/fortran/epv00.for').read()
for nm,v in re.findall(r"\b(N[ES]\d[XYZ])\s*=\s*(\d+)",src): src=re.sub(r"J=(\s*\d+),%s\)"%nm,lambda m,v=v:"J=%s,%s)"%(m.group(1),v),src)
lines=[l for l in src.split('\n') if l and l[0] not in '*Cc!']
# join continuation lines (non blank col 6)
stm=[]
for l in lines:
    if len(l)>5 and l[5]!=' ' and l[:5].strip()=='' : stm[-1]+=' '+l[6:]
    else: stm.append(l)
n={k:{} for k in ('E0','E1','E2','S0','S1','S2')}
for s in stm:
    m=re.match(r'\s*DATA \(\((\w\d)\(I,J,(\d)\),I=1,3\),J=\s*(\d+),\s*(\d+)\s*\)\s*/(.*)/',s)
    if not m:
        if s.strip().startswith('DATA') and 'NE' not in s and 'NS' not in s: print('SKIP',s[:80],file=sys.stderr)
        continue
    t,k,a,b,body=m.groups(); a=int(a);b=int(b);k=int(k)
    v=[x.strip().replace('D','e') for x in body.split(',')]
    assert len(v)==3*(b-a+1),(s[:60],len(v))
    for i in range(b-a+1):
        n[t][(k,a+i)]=v[3*i:3*i+3]
out="// Generated by tools/mktables.py from fortran/epv00.for. (amplitude, phase, frequency)\n"
for t in n:
    for k in (1,2,3):
        J=sorted(j for (kk,j) in n[t] if kk==k)
        assert J==list(range(1,len(J)+1)),(t,k)
        out+="pub const %s_%d: [[f64; 3]; %d] = [\n"%(t,k,len(J))
        for j in J: out+="    [%s],\n"%", ".join(n[t][(k,j)])
        out+="];\n"
        print(t,k,len(J))
open('/verif/harness/src/epv_tab.rs','w').write(out)
# compare with the Rust table
rs=open('/repo/crates/tofas/src/epv00_data.rs').read()
for t in n:
    m=re.search(r'pub const %s : [^=]*= \[(.*?)\n\];'%t,rs,re.S)
    blocks=re.split(r'\n  \],',m.group(1))[:3]
    arr=[[ [float(x) for x in r.split(',')] for r in re.findall(r'\[([^\[\]]*)\],? //',b)] for b in blocks]
    bad=0
    for (k,j),v in n[t].items():
        for i in range(3):
            if arr[i][j-1][k-1]!=float(v[i]): bad+=1; print('DIFF',t,k,j,i,arr[i][j-1][k-1],v[i])
    print(t,'bad',bad)
# nutation, CIO tables: copied once from the base commit
def grab(f,name):
    s=open(f).read(); m=re.search(r'const %s : [^=]*= &?\[(.*?)\n\];'%name,s,re.S); return m.group(1)
F='/repo/crates/tofas/src/frames.rs'; L='/repo/crates/tofas/src/locator.rs'
o="// Coefficients of the IAU 2000B nutation and IAU 2000 s series (tools/mktables.py).\n"
def emit(name,typ,body):
    global o
    rows=re.findall(r'\[([^\[\]]*)\]',body)
    o+="pub const %s: &[%s] = &[\n"%(name,typ)+"".join("    [%s],\n"%r.strip() for r in rows)+"];\n"; print(name,len(rows))
emit('NALS','[i32; 5]',grab(F,'NALS')); emit('CLS','[f64; 6]',grab(F,'CLS'))
for k in range(5):
    emit('KS%d'%k,'[i32; 8]',grab(L,'KS%d'%k)); emit('SS%d'%k,'[f64; 2]',grab(L,'SS%d'%k))
open('/verif/harness/src/series_tab.rs','w').write(o)
