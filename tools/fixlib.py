"""Helper used while repairing /repo: exact text replacements followed by one commit."""
import subprocess
def sub(path, *pairs):
    p='/repo/include/lalib/'+path; s=open(p).read()
    for t in pairs:
        a,b=t[0],t[1]; n=t[2] if len(t)>2 else 1
        assert s.count(a)==n,(path,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
def commit(msg): subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
