import json,random,subprocess,sys,os,shutil,time,re
ENV='. /opt/vp/env.sh; export GOFLAGS=-mod=mod; '
tag=sys.argv[1]; seed=int(sys.argv[2]); spec=sys.argv[3:]   # file:count ...
B='/tmp/mut/'+tag; W=B+'/repo'; V=B+'/verif'
shutil.rmtree(B,ignore_errors=True); os.makedirs(B)
def sh(cmd,cwd=B,timeout=900):
    try:
        p=subprocess.run(['bash','-c',ENV+cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
        return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 99,'timeout'
SRC=os.environ.get('MUT_REPO','/repo'); VS=os.environ.get('MUT_VERIF','/verif')
sh('cp -a %s repo; mkdir verif; cp -r %s/h %s/run.sh %s/known_findings.json verif/; sed -i "s#=> /repo#=> %s#" verif/h/go.mod'%(SRC,VS,VS,VS,W))
quick={'C01':50000,'C02':8000,'C03':20000,'C04':50000,'C05':20000,'C06':10000,'C07':2000,'C08':3000,'C09':1500,'C10':400,'C11':700,'C12':500,'C13':500,'C14':250,'C15':300,'C16':400,'C17':400,'C18':400,'C19':500,'C20':400,'C21':600,'C22':1000,'C23':2500,'C24':600,'C25':2500,'C26':1000,'C27':400,'C28':2500,'C29':2500}
M=[('pkg/scanner','C04 C01 C05 C03'),('pkg/token','C04 C05 C01'),('pkg/parser','C03 C06 C05 C01 C25 C04'),('pkg/ast','C03 C08 C25 C06 C05 C02'),
('pkg/build/build.go','C06 C08 C05 C07 C26 C23 C14 C10 C22 C02 C11 C15 C24'),('pkg/build/verify','C20 C21 C28 C05 C06 C02'),('pkg/build/format','C20 C21 C28 C02'),('pkg/build/binding','C15 C06 C05 C02 C09'),
('pkg/build/database','C17 C18 C19 C05 C02 C09'),('pkg/build/language','C24 C27 C29 C07 C02'),('pkg/build/writer','C07 C11 C23 C09 C22 C08'),('pkg/build/data','C06 C14 C05 C10 C23 C09'),('pkg/build/enum','C06 C13 C05'),('pkg/build/server','C06 C15 C14 C16 C05 C09'),('pkg/build/error','C05 C06'),
('pkg/golang/data','C10 C12 C09 C14 C25 C17'),('pkg/golang/enum','C13 C20 C09 C25 C10'),('pkg/golang/server','C15 C14 C09 C16 C25 C07'),('pkg/golang/database','C17 C18 C19 C09 C02 C07'),('pkg/golang/verify','C20 C09 C05 C07'),('pkg/golang/gloang','C08 C09 C10 C15 C20 C17 C02 C25'),
('pkg/typescript/server','C16 C11 C14 C25'),('pkg/typescript/enum','C13 C11 C24 C25'),('pkg/typescript/verify','C21 C11 C27'),('pkg/typescript/ui','C27 C24 C11'),('pkg/typescript/language','C24 C27'),('pkg/typescript/data','C11 C12 C14 C25 C16'),('pkg/typescript/typescript','C11 C08 C21 C16 C27 C24 C02 C25'),
('pkg/dart/ui','C29 C24 C23 C02'),('pkg/dart/verify','C28 C23 C29'),('pkg/dart/language','C24 C29 C23'),('pkg/dart/enum','C13 C23 C24 C25'),('pkg/dart','C23 C29 C28 C14 C24 C25 C08 C02'),
('pkg/java','C22 C13 C14 C25 C08 C02'),('cmd','C26')]
def props(f):
    for k,v in M:
        if f.startswith(k): return v.split()
rnd=random.Random(seed)
log=open('/tmp/mut/%s.log'%tag,'a')
def say(*a):
    s=' '.join(map(str,a)); print(s,flush=True); log.write(s+'\n'); log.flush()
PK="go list -e -f '{{if or .GoFiles .CgoFiles .InvalidGoFiles .Error}}{{.ImportPath}}{{end}}' ./... | grep -vxE 'hbuf/pkg/format|hbuf/test/go/parser'"
rc,pk=sh(PK,W); pk=' '.join(pk.split())
stat={'nobuild':0,'test':0,'caught':0,'missed':0}
for sp in spec:
    f,n=sp.split(':'); n=int(n)
    orig=open(W+'/'+f,'rb').read()
    rc,o=sh('/tmp/mutgen/mutgen '+W+'/'+f)
    ms=[json.loads(l) for l in o.splitlines()]
    # strings matter less: weight
    a=[m for m in ms if not m['What'].startswith('str') and m['What']!='delete']; b=[m for m in ms if m['What'].startswith('str') or m['What']=='delete']
    rnd.shuffle(a); rnd.shuffle(b)
    seq=[]
    while a or b:
        if a: seq.append(a.pop())
        if a: seq.append(a.pop())
        if b: seq.append(b.pop())
    done=0
    for m in seq:
        if done>=n: break
        src=orig[:m['Off']]+m['New'].encode()+orig[m['End']:]
        open(W+'/'+f,'wb').write(src)
        try:
            rc,o=sh('go build '+pk,W,120)
            if rc: stat['nobuild']+=1; continue
            rc,o=sh('go test . ./pkg/golang',W,60)
            if rc: stat['test']+=1; continue
            done+=1
            d='%s:%d %s %r -> %r'%(f,m['Line'],m['What'],m['Old'][:90],m['New'][:100])
            t=time.time(); hit=None
            for p in props(f):
                rc,o=sh('HV_CASES=%d ./run.sh %s'%(quick[p],p),V,300)
                if rc==1 and 'VIOLATION' in o: hit=p; break
                if rc not in (0,1): hit=p+'?rc%d'%rc+o[-300:]; break
            if hit: stat['caught']+=1; say('  caught',hit,'%.0fs'%(time.time()-t),d)
            else: stat['missed']+=1; say('MISSED %.0fs'%(time.time()-t),d)
        finally:
            open(W+'/'+f,'wb').write(orig)
say('DONE',stat)
