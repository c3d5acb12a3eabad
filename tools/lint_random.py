import re,glob,sys
for p in sorted(glob.glob('/verif/spec/*.tla')):
    s=open(p).read()
    if p.endswith(('Gen.tla','Trace.tla')): continue
    t=re.sub(r'\\\*.*','',s)
    defs=list(re.finditer(r'^(\w+)(\([^)]*\))?\s*==',t,re.M))
    bodies={}
    for i,m in enumerate(defs):
        bodies[m.group(1)]=(m.group(2),t[m.end():defs[i+1].start() if i+1<len(defs) else len(t)])
    vs=set()
    m=re.search(r'VARIABLES?([^\n]*(?:\n\s+[^\n]*)*)',t)
    if m: vs=set(re.findall(r'\w+',m.group(1)))
    rnd={n for n,(a,b) in bodies.items() if 'RandomElement' in b}
    stateful={n for n,(a,b) in bodies.items() if set(re.findall(r'\w+',b))&vs}
    ch=True
    while ch:
        ch=False
        for n,(a,b) in bodies.items():
            w=set(re.findall(r'\w+',b))
            if n not in rnd and w&rnd: rnd.add(n); ch=True
            if n not in stateful and w&stateful: stateful.add(n); ch=True
    fz=[n for n in rnd if bodies[n][0] is None and n not in stateful]
    fz2=[n for n in rnd if bodies[n][0] is None and n in stateful]
    if rnd: print(p.split('/')[-1],'FROZEN',fz,'stateful0',fz2,vs)
