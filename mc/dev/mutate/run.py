import json,os,random,subprocess,sys,shutil,time
W=int(sys.argv[1]); NW=int(sys.argv[2]); cpus=sys.argv[3]
only=sys.argv[4] if len(sys.argv)>4 else ''
ENC='P12 P14 P15 P16 P18 P17'
MAP=[('btypes/address.go','P26 P13 P10'),('btypes/apdu.go','P15 P07 P12'),('btypes/bitstring','P24 P14'),('btypes/device.go','P26 P21 P19 P20'),('btypes/object','P25'),('btypes/priority','P21'),
('btypes/property','P25 P16'),('btypes/services','P25'),('datalink/','P26 P13 P09 P28'),('device.go','P07 P13 P26 P09 P10 P11 P06 P28 P08'),
('encoding/apdu','P15 P07 P12'),('encoding/appdata','P14 P16 P17'),('encoding/bvlc','P15 P09 P17'),('encoding/iam','P18 P10 P17'),('encoding/npdu','P15 P11 P17'),('encoding/whois','P18 P10'),
('encoding/',ENC),('helpers/data','P21 P20 P22 P24'),('helpers/ip','P26'),('helpers/store','P23'),('helpers/val','P26 P23'),
('iam.go','P13 P18 P10'),('misc.go','P13'),('network/base','P23 P20 P28'),('network/device','P23 P20 P21'),('network/discover','P22'),('network/objects','P20'),('network/points','P21'),
('network/read.go','P21 P20'),('network/store','P23'),('network/strings','P21 P22'),('network/whois','P22'),('network/write','P21'),('objectlist','P19'),('read','P07 P12 P13 P08 P06'),
('tsm/','P01 P02 P03 P08 P06'),('utsm/','P04 P05 P10 P11'),('whois.go','P10 P13 P18'),('what','P11 P13 P10'),('whoisrouter','P11 P13'),('write','P07 P12 P13 P08')]
files=[f for f in subprocess.check_output("cd /repo; git ls-files '*.go' | grep -v '_test.go\\|^cmd\\|_string.go\\|units\\|homedir\\|nils\\|print\\|misc.go'",shell=True,text=True).split()]
jobs=[]
for f in files:
    if only and only not in f: continue
    ms=json.loads(subprocess.check_output(['/tmp/w/mutate/mutate','/repo/'+f],text=True)) or []
    props=next((p for k,p in MAP if f.startswith(k)),None)
    if not props: continue
    r=random.Random(f); r.shuffle(ms)
    for i,m in enumerate(ms): jobs.append((i/ max(1,len(ms)) , f,m,props))
jobs.sort(key=lambda j:(j[0],j[1]))
D=f'/tmp/w/mut{W}'
if os.path.isdir(D): shutil.rmtree(D)
shutil.copytree('/repo',D,symlinks=True)
subprocess.call(['git','-C',D,'checkout','-q','--','.'])
tool=f'/tmp/w/mctool{W}'
env=dict(os.environ,MC_VERIF=os.environ.get('MUTV','/tmp/w/vsnap'),MC_REPO=D,MC_OUT=f'/tmp/w/mutout{W}',MC_SECONDS='40')
os.makedirs(env['MC_OUT'],exist_ok=True)
logf=open(f'/tmp/w/mutate/log{W}','a')
done=set()
for n in os.listdir('/tmp/w/mutate'):
    if n.startswith('log'):
        for l in open('/tmp/w/mutate/'+n): done.add(l.split('\t')[0])
pk='./ ./btypes/... ./datalink/... ./encoding/... ./helpers/... ./network/... ./tsm/... ./utsm/...'
def sh(c,t): 
    try:
        p=subprocess.run(['taskset','-c',cpus,'bash','-c','. /opt/vp/env.sh; '+c],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 99,'timeout'
for idx,(o,f,m,props) in enumerate(jobs):
    if idx%NW!=W%NW: continue
    if os.path.exists('/tmp/w/mutate/stop'): break
    key=f"{f}:{m['Line']}:{m['From']}:{m['Why']}:{m['New'][:40]}".replace('\t',' ').replace('\n',' ')
    if key in done: continue
    src=open('/repo/'+f,'rb').read()
    new=src[:m['From']]+m['New'].encode()+src[m['To']:]
    open(D+'/'+f,'wb').write(new)
    t0=time.time()
    try:
        rc,out=sh(f'cd {D} && go build {pk}',120)
        if rc: logf.write(f"{key}\tnobuild\n"); logf.flush(); continue
        rc,out=sh(f'bash /verif/mc/dev/stabletests.sh {D}',300)
        if out.strip().split('\n')[-1]!='ok': logf.write(f"{key}\ttests\n"); logf.flush(); continue
        res='SURVIVED '+props; 
        for p in props.split():
            rc,out=sh(f'{tool} check {p} quick',300)
            if 'VIOLATION' in out: res='caught '+p; break
            if rc!=0: res=f'error {p} rc={rc} '+out[-300:].replace('\n',' | '); break
        logf.write(f"{key}\t{res}\t{m['Old'][:80]!r}\t{time.time()-t0:.0f}\n"); logf.flush()
    finally:
        open(D+'/'+f,'wb').write(src)
