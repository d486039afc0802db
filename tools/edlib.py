import subprocess
def step(p,pairs,msg):
    p='/repo/'+p
    s=open(p).read()
    for a,b,*n in pairs:
        assert s.count(a)==(n[0] if n else 1),(a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
    if msg: subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
