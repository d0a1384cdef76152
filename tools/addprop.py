# addprop.py ID 'jobs expr' technique note rule   (technique/note are names in props.py)
import sys,re
i,jobs,t,n,rule=sys.argv[1:6]
s=open('/verif/props.py').read().rstrip()
s=re.sub(r' "%s": dict\(.*?\n   rule=.*?\),\n'%i,'',s,flags=re.S)
assert s.endswith('}')
s=s[:-1]+' "%s": dict(jobs=%s, technique=%s, note=%s,\n   rule=%s),\n}\n'%(i,jobs,t,n,repr(rule))
open('/verif/props.py','w').write(s)
