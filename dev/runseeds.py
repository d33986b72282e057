"""Run the check of each seeded bug's property (or all claimed with -a) against a copy with the patch."""
import sys, os, json, subprocess
from concurrent.futures import ThreadPoolExecutor
S='/verif/seeded'; ids=[a for a in sys.argv[1:] if a!='-a'] or sorted(os.listdir(S)); allc='-a' in sys.argv
claimed=sorted(f[:-3] for f in os.listdir('/verif/checks') if f.endswith('.py'))
hits={}
def one(i):
    W='/tmp/rs_'+i; subprocess.run(f'rm -rf {W}; git clone -q /repo {W} && git -C {W} apply {S}/{i}/patch.diff',shell=True,check=True)
    p=json.load(open(f'{S}/{i}/meta.json'))['property']; out=[]
    for c in (claimed if allc else [p]):
        if c not in claimed: out.append(c+':unclaimed'); continue
        r=subprocess.run(['python3','/verif/check.py',c],capture_output=True,text=True,env=dict(os.environ,OGV_REPO=W),timeout=1200)
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if c==p or r.returncode: out.append(f'{c}:{r.returncode}{"*" if c==p else ""} {r.stdout.strip().splitlines()[0][:110] if r.returncode and c==p else ""}')
        if v: hits.setdefault(i,[]).append(c)
    subprocess.run(['rm','-rf',W]); return i,out
with ThreadPoolExecutor(3) as ex:
    for i,o in ex.map(one,ids): print(i,'|',' '.join(o),flush=True)

K='/verif/dev/caught.json'
try: h=json.load(open(K))
except Exception: h={}
for i in ids:
    h[i]=sorted(set(hits.get(i,[])) | (set() if allc else set(h.get(i,[]))))
json.dump(h,open(K,'w'),indent=1,sort_keys=True)
