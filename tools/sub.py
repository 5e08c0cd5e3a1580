import sys
R='/repo/ttl/'
def sub(f,a,b,n=1):
    s=open(R+f).read()
    assert s.count(a)==n,(f,a,s.count(a))
    open(R+f,'w').write(s.replace(a,b))
