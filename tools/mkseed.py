#!/usr/bin/env python3
"""mkseed.py SPECFILE...: makes planted bugs.
A spec is a python file defining id, prop, needs, breaks, edits=[(file,old,new)], cases (text of cases.txt).
Optionally expected (text that the clean output must contain, checked)."""
import sys,os,json,subprocess,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); L=V+'/tools/seedlib'
base='a644b1b'
def run(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
orig={}
def make(spec):
    S={}; exec(open(spec).read(),S)
    sid=S['id']; d=f'{V}/seeded/{sid}'
    if os.path.exists(d) and '-f' not in sys.argv: print(sid,'exists'); return True
    wt=tempfile.mkdtemp(prefix='seed-',dir='/tmp'); os.rmdir(wt)
    run('git','-C','/repo','worktree','add','--detach',wt,'HEAD',check=True)
    try:
        tmp=tempfile.mkdtemp(prefix='seedd-',dir='/tmp')
        for f in ('demo.go','demo.sh'): shutil.copy(f'{L}/{f}',tmp)
        os.chmod(tmp+'/demo.sh',0o755)
        open(tmp+'/cases.txt','w').write(S['cases'].lstrip('\n'))
        open(tmp+'/expected.txt','w').write('')
        if 'demo_sh' in S:
            open(tmp+'/demo.sh','w').write(S['demo_sh']); os.remove(tmp+'/demo.go'); os.remove(tmp+'/cases.txt')
        if 'demo_go' in S: open(tmp+'/demo.go','w').write(S['demo_go'])
        r=run('bash',tmp+'/demo.sh',cwd=wt)
        out=''.join(l[2:]+'\n' for l in r.stdout.splitlines() if l.startswith('> '))
        open(tmp+'/expected.txt','w').write(out)
        r=run('bash',tmp+'/demo.sh',cwd=wt)
        if r.returncode!=0: print(sid,'demo not clean',r.stdout[-500:],r.stderr[-500:]); return False
        print('---',sid,'expected'); print(out[:1500])
        for f,o,n in S['edits']:
            p=f'{wt}/src/{f}'; s=open(p).read()
            if s.count(o)!=1: print(sid,'edit does not apply',f,s.count(o),repr(o)[:80]); return False
            open(p,'w').write(s.replace(o,n))
            pass
        diff=run('git','-C',wt,'diff').stdout
        # changed lines of the original repository
        removed=[l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for f,_,_ in S['edits']:
            b=run('git','-C','/repo','show',f'{base}:src/{f}').stdout
            bl=set(x.strip() for x in b.splitlines())
        notorig=[l for l in removed if l and l not in bl]
        if notorig: print(sid,'NOTE lines not original:',notorig)
        if not removed: print(sid,'NOTE only additions')
        e=dict(os.environ)
        r=run('bash','-c','. /opt/vp/env.sh; cd src && go vet ./core ./helena_dialect ./picol_dialect ./cli ./native/... >/dev/null; go build ./...',cwd=wt)
        if r.returncode!=0: print(sid,'does not build',r.stderr[-800:]); return False
        r=run('bash',tmp+'/demo.sh',cwd=wt)
        if r.returncode==0: print(sid,'demo does not detect the change'); return False
        print('with the change:'); print(r.stdout[:1200])
        # tests, with the repository's own driver on a bind-free copy: go test json
        r=run('bash','-c','. /opt/vp/env.sh; cd src && go test ./... 2>&1 | tail -300',cwd=wt)
        bad=[l for l in r.stdout.splitlines() if 'FAIL' in l or 'panic' in l]
        if bad: print(sid,"TESTS FAIL",[b.strip()[:110] for b in bad if "[It]" in b or "[FAIL]" in b][:6] or r.stdout[-600:]); return False
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/patch.diff','w').write(diff)
        json.dump({"property":S['prop'],"needs":S['needs'],"what_it_breaks":S['breaks']},open(d+'/meta.json','w'),indent=1)
        for f in os.listdir(tmp): shutil.copy(f'{tmp}/{f}',d)
        os.chmod(d+'/demo.sh',0o755)
        print(sid,'OK'); return True
    finally:
        run('git','-C','/repo','worktree','remove','--force',wt)
        run('git','-C','/repo','worktree','prune')
        shutil.rmtree(tmp,ignore_errors=True)
for s in sys.argv[1:]:
    if s!='-f': make(s)
