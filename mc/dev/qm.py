# quick mutants: qm.py FILE.py [names]   FILE defines M = [(name, 'P04 P05', file, old, new), ...]
import sys, subprocess, os, shutil
ns={}; exec(open(sys.argv[1]).read(), ns); M=ns['M']; only=set(sys.argv[2:])
W='/tmp/w/m/q'
if os.path.isdir(W): shutil.rmtree(W)
subprocess.run(['cp','-a','/repo',W],check=True)
for m in M:
    name,props,edits=m[0],m[1],m[2:]
    if only and name not in only: continue
    subprocess.run(['git','-C',W,'checkout','-q','--','.'],check=True)
    subprocess.run(['git','-C',W,'clean','-qfd'],check=True)
    bad=False
    for k in range(0,len(edits),3):
        f,o,n=edits[k:k+3]
        s=open(f'{W}/{f}').read()
        if s.count(o)!=1: print(name,'PATTERN',s.count(o),f,flush=True); bad=True; break
        open(f'{W}/{f}','w').write(s.replace(o,n))
    if bad: continue
    t=subprocess.run(['bash','/verif/mc/dev/stabletests.sh',W],capture_output=True,text=True).stdout.strip()
    res=[]
    for p in props.split():
        r=subprocess.run(['/tmp/chk.sh',p,'45'],env=dict(os.environ,MC_REPO=W,MC_OUT='/tmp/w/m/ev'),capture_output=True,text=True)
        res.append(f'{p}:{r.returncode}')
        if r.returncode==2: print(r.stdout[-600:], r.stderr[-600:])
    caught=any(x.endswith(':1') for x in res)
    print(('ok    ' if caught else 'MISSED'),name,t,*res,flush=True)
