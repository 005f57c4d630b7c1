import os,subprocess,json,sys,shutil,re
ENV='. /opt/vp/env.sh; '
def sh(cmd,cwd,timeout=900):
    p=subprocess.run(['bash','-c',cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
    return p.returncode,p.stdout.decode(errors='replace')
PRE='''set -e
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh 2>/dev/null || true
D=$(cd "$(dirname "$0")" && pwd)
'''
CLI=PRE+'go build -o "$T/hbuf" ./cmd\n'
def plant(id,prop,needs,breaks,edits,demo,files={},run=True,cases=None):
    S=os.environ.get('SEED','/verif/seeded')+'/'+id; W='/tmp/pl/'+id
    shutil.rmtree(W,ignore_errors=True); os.makedirs(S,exist_ok=True)
    for n,c in files.items():
        open(S+'/'+n,'w').write(c)
    open(S+'/demo.sh','w').write('#!/bin/bash\n'+demo); os.chmod(S+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(S+'/meta.json','w'),indent=1)
    sh('git -C /repo worktree prune; cp -a /repo '+W,'/tmp')
    def bad(m):
        print(id,'BAD',m); shutil.rmtree(W,ignore_errors=True); 
    for e in edits:
        f,old,new=e[:3]
        p=W+'/'+f; s=open(p).read(); n=s.count(old)
        want=e[3] if len(e)>3 else 1
        if n!=want: return bad('%s: %d matches of %r'%(f,n,old))
        # blame
        a=s[:s.index(old)].count('\n')+1; b=a+old.rstrip('\n').count('\n')
        rc,o=sh('git blame -s -L %d,%d %s'%(a,b,f),W)
        mine=[l for l in o.splitlines() if not l.startswith('^309291a') and l.split(')',1)[1].strip()]
        if mine: print(id,'note: lines not original:',mine[:3])
    rc,o=sh('bash '+S+'/demo.sh',W)
    if rc: return bad('demo fails clean: '+o[-1500:])
    for e in edits:
        f,old,new=e[:3]; p=W+'/'+f; s=open(p).read(); open(p,'w').write(s.replace(old,new))
    sh('gofmt -l pkg cmd',W)
    rc,o=sh('git diff',W); open(S+'/patch.diff','w').write(o)
    rc,o=sh(ENV+"go build $(go list -e -f '{{if or .GoFiles .CgoFiles .InvalidGoFiles .Error}}{{.ImportPath}}{{end}}' ./... | grep -vxE 'hbuf/pkg/format|hbuf/test/go/parser') && go vet ./pkg/golang && go test . ./pkg/golang",W)
    if rc: return bad('build/test: '+o[-1500:])
    rc,o=sh('bash '+S+'/demo.sh',W)
    if rc==0: return bad('demo passes with the bug: '+o[-800:])
    print(id,'ok; demo:',o.strip()[-200:].replace('\n',' | '))
    shutil.rmtree(W,ignore_errors=True)
    if run: check(id,cases)
def check(id,cases=None,props=None):
    """runs the checks against a copy of /repo with the bug"""
    S=os.environ.get('SEED','/verif/seeded')+'/'+id; prop=json.load(open(S+'/meta.json'))['property']
    C='/tmp/pl/chk-'+id
    shutil.rmtree(C,ignore_errors=True); os.makedirs(C)
    sh('cp -a /repo %s/repo && mkdir %s/verif && cp -r /verif/h /verif/run.sh /verif/known_findings.json %s/verif/ && sed -i "s#=> /repo#=> %s/repo#" verif/h/go.mod'%(C,C,C,C),C)
    rc,o=sh('git apply %s/patch.diff'%S,C+'/repo')
    if rc: print(id,'patch does not apply',o)
    for pr in props or [prop]:
        rc,o=sh(('HV_CASES=%d '%cases if cases else '')+'./run.sh '+pr,C+'/verif',1200)
        v=[l for l in o.splitlines() if 'VIOLATION' in l]
        print(' ',id,pr,'CAUGHT' if rc==1 and v else 'MISSED rc=%d'%rc,o.strip()[-300:] if not v else v[0][:300]+' | '+o.strip().splitlines()[-1][:120],flush=True)
    shutil.rmtree(C,ignore_errors=True)
if __name__=='__main__' and 'plant' in sys.argv[0]:
    if sys.argv[1]=='check': check(sys.argv[2],props=sys.argv[3:] or None)
