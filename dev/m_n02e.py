import os, random, re
ALL=['N02']; M=[]
R=os.environ.get('OGV_REPO','/repo')
rng=random.Random(int(os.environ.get("MS","5")))
files=[]
for d,_,fs in os.walk(R+'/src'):
    for f in sorted(fs):
        p=os.path.relpath(os.path.join(d,f),R)
        if 'eigensolver' in p and f.endswith('.cpp'): files.append(p)
files.sort()
files=files*20
for n in range(int(os.environ.get('NM','16'))):
    f=files[n%len(files)] if n<len(files) else rng.choice(files)
    L=open(R+'/'+f).read().split('\n')
    for _ in range(300):
        i=rng.randrange(min(40,len(L)-1),len(L)); l=L[i]
        if '=' not in l or l.strip().startswith('//') or 'for' in l or l.count('(')<2 or L.count(l)!=1: continue
        k=rng.randrange(3)
        if k==0: c=[m for m in re.finditer(r'(?<=[\w\)\]])[+-](?=[\w\(])',l)]; r=lambda m:'-' if m.group()=='+' else '+'
        elif k==1: c=[m for m in re.finditer(r'(?<=[\(,\[])\d+(?=[\),\]])',l)]; r=lambda m:str(int(m.group())-1 if int(m.group())>0 else 1)
        else: c=[m for m in re.finditer(r'(?<![\w.])[2-9](?=(\.0)?\*)',l)]; r=lambda m:str(int(m.group())+1)
        c=[m for m in c if m.start()>l.index('=')]
        if not c: continue
        m=rng.choice(c); nl=l[:m.start()]+r(m)+l[m.end():]
        M.append(('%s:%d'%(f[4:],i+1),'N02',[(f,l,nl)])); break
