#!/usr/bin/env python3
"""seed.py make FILE   builds /verif/seeded/<id> from descriptions (development aid)
seed.py verify [ID..]  checks that each planted bug builds, passes the tests, changes original
                       lines and is shown by its demonstration
seed.py catch [ID..]   runs the property's check on each planted bug"""
import sys,subprocess,re,os,json
V='/verif/seeded'; W='/tmp/srepo'
ENV=dict(os.environ,HOME='/root',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',GOFLAGS='-modfile=/tmp/smod/mint.mod',GOCACHE='/root/.cache/go-build',GOMODCACHE='/root/go/pkg/mod')
def sh(cmd,cwd=W,env=ENV,timeout=600):
    try:
        r=subprocess.run(['bash','-c',cmd],cwd=cwd,env=env,capture_output=True,text=True,timeout=timeout)
        return r.returncode,r.stdout+r.stderr
    except subprocess.TimeoutExpired: return 99,'timeout'
def fresh():
    subprocess.run(['rm','-rf',W,'/tmp/smod']); subprocess.run(['cp','-a','/repo',W],check=True)
    os.makedirs('/tmp/smod'); subprocess.run('cp /repo/go.mod /tmp/smod/mint.mod; cp /opt/vp/mint.sum /tmp/smod/mint.sum',shell=True,check=True)
def reset(): subprocess.run(['git','-C',W,'checkout','-q','--','.']); subprocess.run(['git','-C',W,'clean','-fdq'])
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package: exit 0 if the property holds.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp go.mod "$T/mint.mod" && cp "$D/mint.sum.txt" "$T/mint.sum" || exit 2
echo "{\\"Replace\\": {\\"$PWD/zz_verif_demo_test.go\\": \\"$D/demo_test.go.txt\\"}}" > "$T/overlay.json"
export GOFLAGS=-modfile="$T/mint.mod"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestVerifDemo' %s.
'''
def make(f):
    fresh()
    src=open(f).read()
    helper=open('/verif/tools/demo_helper.go.txt').read()
    for blk in re.split(r'^### ',src,flags=re.M)[1:]:
        head,body=blk.split('\n',1); ID,prop,needs,breaks=[x.strip() for x in head.split('|')]
        edits,demo=body.split('\nDEMO',1); opts,demo=demo.split('\n',1)
        reset(); bad=None
        for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>',edits,flags=re.M|re.S):
            fn,o,n=m.groups(); p=f'{W}/{fn}'; t=open(p).read()
            if t.count(o)!=1: bad=f'{t.count(o)} matches in {fn}: {o[:70]}'; break
            open(p,'w').write(t.replace(o,n,1))
        if bad: print('??',ID,bad); continue
        d=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
        os.makedirs(f'{V}/{ID}',exist_ok=True)
        open(f'{V}/{ID}/patch.diff','w').write(d)
        open(f'{V}/{ID}/demo.sh','w').write(DEMO%(opts.strip()+' ' if opts.strip() else '')); os.chmod(f'{V}/{ID}/demo.sh',0o755)
        code='package mint\n'+demo+'\n'+helper
        p=subprocess.run(['goimports'],input=code,capture_output=True,text=True,cwd=W)
        if p.returncode: print('??',ID,p.stderr[:400]); continue
        open(f'{V}/{ID}/demo_test.go.txt','w').write(p.stdout)
        subprocess.run(['cp','/opt/vp/mint.sum',f'{V}/{ID}/mint.sum.txt'])
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{V}/{ID}/meta.json','w'),indent=1)
        verify([ID],False)
def base():
    return subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
def foreign(d):
    """changed lines that are not of the original repository"""
    out=[]; b=base()
    for fd in re.split(r'^diff --git ',d,flags=re.M)[1:]:
        fn=re.search(r'^--- a/(\S+)',fd,flags=re.M).group(1)
        bl=subprocess.run(['git','-C','/repo','blame','-s','-l',fn],capture_output=True,text=True).stdout.split('\n')
        for h in re.finditer(r'^@@ -(\d+)(?:,\d+)? .*?\n((?:[ +\-\\].*\n?)*)',fd,flags=re.M):
            n=int(h.group(1))
            for l in h.group(2).split('\n'):
                if l.startswith('-'):
                    if not bl[n-1].lstrip('^').startswith(b[:39]): out.append((fn,n))
                    n+=1
                elif l.startswith(' '): n+=1
    return out
def verify(ids,f=True):
    if f: fresh()
    for ID in ids:
        reset(); msg=[]
        d=f'{V}/{ID}'
        c,o=sh(f'bash {d}/demo.sh')
        if c: msg.append(f'demo fails on the clean tree: {o[-600:]}')
        c,o=sh(f'git apply {d}/patch.diff')
        if c: msg.append('does not apply '+o[:200])
        fo=foreign(open(f'{d}/patch.diff').read())
        if fo: msg.append(f'changes lines of ours {fo}')
        c,o=sh('go build ./...')
        if c: msg.append('does not build '+o[:300])
        else:
            c,o=sh('go test -vet=off -count=1 ./... 2>&1 | grep -E "^( *--- FAIL|FAIL|panic)"')
            if o.strip(): msg.append('tests fail: '+o[:300])
            c,o=sh(f'bash {d}/demo.sh')
            if c==0: msg.append('demo passes with the change')
            elif 'TestVerifDemo' not in o: msg.append('demo fails otherwise: '+o[-500:])
            else: msg.append('ok: '+' '.join(o.split())[:160])
        print(ID,'|',' ; '.join(msg),flush=True)
def catch(ids):
    fresh()
    for ID in ids:
        reset(); prop=json.load(open(f'{V}/{ID}/meta.json'))['property']
        c,o=sh(f'git apply {V}/{ID}/patch.diff')
        r=subprocess.run(['/tmp/mintcheck','-prop',prop,'-repo',W,'-verif','/tmp/mverif'],capture_output=True,text=True)
        v=[l for l in (r.stdout+r.stderr).split('\n') if re.search(r': \[[A-Z-]+\]',l)]
        print('CAUGHT' if r.returncode==1 and f'VIOLATION property={prop}' in r.stdout else 'MISSED',ID,prop,'rc',r.returncode,len(v),v[0][:150] if v else r.stderr[-200:],flush=True)
a=sys.argv[2:]
if sys.argv[1]=='make': make(a[0])
else:
    ids=a or sorted(os.listdir(V))
    (verify if sys.argv[1]=='verify' else catch)(ids)
