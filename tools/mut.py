#!/usr/bin/env python3
"""mut.py FILE [-t]: tries edits of a copy of /repo against the analyser (development aid).
FILE has blocks:
### PROPS | bad/ok | name
file.go
<<<<
old
====
new
>>>>
(several file/edit parts per block). With -t runs the tests too."""
import sys,subprocess,re,os,shutil,tempfile
src=open(sys.argv[1]).read(); runtests='-t' in sys.argv
only=[a for a in sys.argv[2:] if not a.startswith('-')]
W='/tmp/mrepo'
subprocess.run(['rm','-rf',W]); subprocess.run(['cp','-a','/repo',W],check=True)
env=dict(os.environ,HOME='/root',GOPROXY='off',GOTOOLCHAIN='local')
for blk in re.split(r'^### ',src,flags=re.M)[1:]:
    head,body=blk.split('\n',1); props,kind,name=[x.strip() for x in head.split('|')]
    if only and not any(o in name for o in only): continue
    subprocess.run(['git','-C',W,'checkout','-q','--','.'])
    bad=None
    for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>',body,flags=re.M|re.S):
        f,o,n=m.groups(); p=f'{W}/{f}'; t=open(p).read()
        if o not in t: bad=f'not found in {f}: {o[:60]}'; break
        open(p,'w').write(t.replace(o,n,1))
    if bad: print('??',name,bad); continue
    b=subprocess.run('bash -c "source /opt/vp/env.sh; cd %s; go build ./... "'%W,shell=True,capture_output=True,text=True,env=env,cwd=W)
    if b.returncode: print('?? does not build',name,b.stderr[:300]); continue
    t=''
    if runtests:
        r=subprocess.run('bash -c "source /opt/vp/env.sh; cd %s; go test -vet=off -count=1 ./... 2>&1 | grep -c ^---.FAIL"'%W,shell=True,capture_output=True,text=True,env=env,cwd=W)
        t=' testfails='+r.stdout.strip()
    os.makedirs('/tmp/mverif',exist_ok=True); shutil.copy('/verif/known_findings.txt','/tmp/mverif/')
    r=subprocess.run(['timeout','300','/tmp/mintcheck','-prop',props,'-repo',W,'-verif','/tmp/mverif'],capture_output=True,text=True)
    hit='VIOLATION' in r.stdout
    good=(kind=='bad')==hit and r.returncode in(0,1)
    v=[l for l in (r.stdout+r.stderr).split('\n') if re.search(r': \[[A-Z-]+\]',l)]
    print('ok ' if good else 'XX ',kind,props,name,t,'rc',r.returncode,(v[0][:170] if v else r.stderr[-200:] if r.returncode not in(0,1) else ''),len(v),flush=True)
