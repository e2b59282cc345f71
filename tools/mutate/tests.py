"""Runs the repository's tests against the mutants of /tmp/mut.jsonl (written by mutate.go) in copies under /tmp/mut."""
import json,random,subprocess,os,sys,threading,queue,shutil,time
W=8
muts=[json.loads(l) for l in open('/tmp/mut.jsonl')]
for i,m in enumerate(muts): m['id']=i
random.Random(7).shuffle(muts)
# thin out uuid tables and math constants
out=[];seen={}
for m in muts:
    if m.get('skip'): continue
    k=m['File']; seen[k]=seen.get(k,0)+1
    if k in('uuid/uuid.go',) and seen[k]>150: continue
    if k in('math.go',) and seen[k]>350: continue
    out.append(m)
muts=out
q=queue.Queue()
for m in muts: q.put(m)
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',PATH='/usr/local/go/bin:/usr/bin:/bin')
res=open('/tmp/mut1.jsonl','a'); lock=threading.Lock()
done=set(json.loads(l)['id'] for l in open('/tmp/mut1.jsonl'))
def work(w):
    d=f'/tmp/mut/w{w}'; e=dict(env,GOCACHE=f'/tmp/mut/cache{w}',GOMAXPROCS='2')
    if not os.path.isdir(d): 
        shutil.copytree('/repo',d)
        subprocess.run(['go','test','-vet=off','./...'],cwd=d,env=e,capture_output=True)
        open(f'/tmp/mut/mark{w}','w').close()
    n=0
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        if m['id'] in done: continue
        p=os.path.join(d,m['File']); src=open(os.path.join('/repo',m['File']),'rb').read()
        new=src[:m['From']]+m['New'].encode()+src[m['To']:]
        open(p,'wb').write(new)
        st='?'
        b=subprocess.run(['go','build','./...'],cwd=d,env=e,capture_output=True)
        if b.returncode: st='nobuild'
        else:
            try:
                t=subprocess.run(['go','test','-p','2','-vet=off','-timeout','40s','./...'],cwd=d,env=e,capture_output=True,timeout=120)
                st='killed' if t.returncode else 'survived'
            except subprocess.TimeoutExpired: st='killed'
        open(p,'wb').write(src)
        with lock:
            m['st']=st; res.write(json.dumps(m)+'\n'); res.flush()
        n+=1
        if n%60==0: subprocess.run(['find',f'/tmp/mut/cache{w}','-type','f','-newer',f'/tmp/mut/mark{w}','-delete'])
ts=[threading.Thread(target=work,args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
