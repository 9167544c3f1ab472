import subprocess,sys
def ed(p,pairs,msg,amend=False):
    s=open('/repo/'+p).read()
    for a,b in pairs:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    open('/repo/'+p,'w').write(s)
    subprocess.check_call(['gofmt','-l','/repo/'+p])
    if msg: subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
