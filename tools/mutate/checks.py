
import json,random,subprocess,os,sys,time,re
MAP=[('core.go','C32 C22 C01 C21 C20 C06 C17 C25 C27 C14 C02'),('decoder.go','C32 C01 C08 C10 C07 C27 C11 C13 C02'),('encoder.go','C32 C31 C30 C01 C24 C27 C07 C14 C02'),
('opc.go','C31 C30 C02 C28 C24 C27 C11 C12'),('read.go','C31 C32 C28 C02 C10 C12 C13 C24 C11 C27 C29'),('math.go','C20 C26 C22 C01 C15'),('validate.go','C32 C17 C19 C18 C21 C14'),
('internal/xml/xml.go','C09 C08 C11 C24 C10 C27 C29'),('internal/xml/printer.go','C30 C01 C07 C27 C24 C26 C14'),
('beamlattice/validate.go','C18'),('materials/validate.go','C18'),('slices/validate.go','C18'),('production/validate.go','C18'),
('beamlattice/','C30 C05 C08 C10 C21 C27 C26'),('materials/','C30 C03 C08 C10 C21 C27 C26 C11'),('slices/','C30 C04 C08 C10 C21 C27 C26'),('production/','C30 C06 C08 C25 C10 C21 C27'),
('errors/','C23 C10 C17'),('uuid/','C25 C06 C10'),('utils/','C25 C01 C06 C17'),('spec/','C07 C08 C21 C10 C27 C18'),('importer/stl','C15 C16 C13 C24')]
def props(f):
    for k,v in MAP:
        if f==k or (k.endswith('/') and f.startswith(k)) or f.startswith(k) and '/' in k: return v.split()
    raise Exception(f)
R,V='/tmp/mut/r','/tmp/mut/v'
subprocess.run(f'mkdir -p /tmp/mut; rsync -a --delete /repo/ {R}/; rsync -a --delete --exclude .git --exclude evidence --exclude seeded /verif/ {V}/; mkdir -p {V}/evidence; sed -i "s#=> /repo#=> {R}#" {V}/harness/go.mod',shell=True,check=True)
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',PATH='/usr/local/go/bin:/usr/bin:/bin',GOCACHE='/tmp/mut/cacheR',VERIF_SEED='1',VERIF_TIER='quick')
done={}
if os.path.exists('/tmp/mut2.jsonl'):
    for l in open('/tmp/mut2.jsonl'): d=json.loads(l); done[d['id']]=d
res=open('/tmp/mut2.jsonl','a')
limit=time.time()+float(sys.argv[1])*60
only=set(map(int,sys.argv[2:]))
seenlog=0
subprocess.run(['go','build','-o','/tmp/mut/check','.'],cwd=V+'/harness',env=env); open('/tmp/mut/markR','w').close()
n=0
while time.time()<limit:
    surv=[json.loads(l) for l in open('/tmp/mut1.jsonl')]
    surv=[m for m in surv if m['st']=='survived' and not m['File'].startswith(('spec/','utils/')) and (m['id'] in only if only else m['id'] not in done)]
    cnt={}
    for d in done.values(): cnt[d['File']]=cnt.get(d['File'],0)+1
    if not surv: break
    m=min(surv,key=lambda m:(cnt.get(m['File'],0)/ (1 if m['File'] not in('uuid/uuid.go','math.go') else .3)))
    if only: only.discard(m['id'])
    p=os.path.join(R,m['File']); src=open(os.path.join('/repo',m['File']),'rb').read()
    open(p,'wb').write(src[:m['From']]+m['New'].encode()+src[m['To']:])
    b=subprocess.run(['go','build','-mod=readonly','-o','/tmp/mut/check','.'],cwd=V+'/harness',env=env,capture_output=True)
    r={}
    kill=None
    t0=time.time()
    if b.returncode: kill='build'
    else:
        for c in props(m['File']):
            try:
                o=subprocess.run(['/tmp/mut/check','-verif',V,'-prop',c,'-tier','quick'],cwd=V,env=env,capture_output=True,timeout=400)
                r[c]=o.returncode
                if o.returncode: kill=c; r['msg']=(o.stdout.decode('utf8','replace')+o.stderr.decode('utf8','replace'))[:300]; break
            except subprocess.TimeoutExpired: r[c]='timeout'; kill=c+'-timeout'; break
    open(p,'wb').write(src)
    m.update(kill=kill,r=r,t=round(time.time()-t0,1)); done[m['id']]=m
    res.write(json.dumps(m)+'\n'); res.flush()
    n+=1
    if n%40==0: subprocess.run(['find','/tmp/mut/cacheR','-type','f','-newer','/tmp/mut/markR','-delete'])
