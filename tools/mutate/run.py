#!/usr/bin/env python3
"""run.py LIST OUT N SEED WORKERS: try N random mutants of LIST (of mutate list)
on copies of /repo, every check in turn until one reports it; appends to OUT."""
import os,random,shutil,subprocess,sys,threading,collections,json
LIST,OUT,N,SEED,W=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4]),int(sys.argv[5])
V=os.environ.get('MT_VERIF','/verif'); R=os.environ.get('MT_REPO','/repo'); MUT=os.environ.get('MUTATE','/tmp/mt/mutate')
BUDGET=os.environ.get('MT_BUDGET','6')
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
ms=[l.rstrip('\n').split('\t') for l in open(LIST)]
random.Random(SEED).shuffle(ms)
seen=set()
if os.path.exists(OUT):
    seen={tuple(l.split('\t')[1:3]) for l in open(OUT)}
ms=[m for m in ms if (m[0],m[1]) not in seen and 'dialogue_hub' not in m[0]][:N]
kills=collections.defaultdict(collections.Counter)
lock=threading.Lock(); it=iter(ms)
def work(w):
    D=f'/tmp/mt/w{w}'
    shutil.rmtree(D,ignore_errors=True); subprocess.run(['cp','-a',R,D],check=True)
    env=dict(os.environ,GV_REPO=D,GV_VERIF=f'/tmp/mt/v{w}',GV_BUDGET_S=BUDGET,GV_SHARDS='4',VERIF_TIER='quick',VERIF_SEED='1',GV_STOP='1')
    shutil.rmtree(f'/tmp/mt/v{w}',ignore_errors=True); shutil.copytree(V,f'/tmp/mt/v{w}',ignore=shutil.ignore_patterns('.git','replays','.build'))
    B=f'/tmp/mt/gv{w}.test'
    while True:
        with lock:
            m=next(it,None)
        if m is None: break
        subprocess.run(['git','-C',D,'checkout','-q','--','.'],check=True)
        subprocess.run([MUT,'apply',D,m[0],m[1]],check=True)
        diff=subprocess.run(['git','-C',D,'diff','-U0'],capture_output=True,text=True).stdout
        if subprocess.run(['go','vet','-composites=false','-copylocks=false','./'+os.path.dirname(m[0])],cwd=D,capture_output=True).returncode==99: pass
        r=subprocess.run(['go','build','./...'],cwd=D,capture_output=True,text=True)
        if r.returncode: continue
        r=subprocess.run(['bash',f'/tmp/mt/v{w}/check.sh','--build',B],env=env,capture_output=True,text=True)
        if r.returncode: continue
        order=[p for p,_ in kills[m[0]].most_common()]; order+=[p for p in props if p not in order]
        res='SURVIVED'; odd=[]
        for p in order:
            e=dict(env,GV_MODE='drive',GV_PROP=p)
            try:
                r=subprocess.run([B,'-test.run=^TestDrive$','-test.timeout=0'],env=e,capture_output=True,text=True,cwd=f'/tmp/mt/v{w}',timeout=240)
                rc=r.returncode
                if rc==1 and 'VIOLATION' in r.stdout: res='killed '+p; kills[m[0]][p]+=1; break
                if rc: odd.append(f'{p}:{rc}')
            except subprocess.TimeoutExpired: odd.append(p+':timeout')
        with lock:
            open(OUT,'a').write('\t'.join([res]+m+[','.join(odd)])+'\n')
ts=[threading.Thread(target=work,args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
