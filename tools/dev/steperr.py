import sys,json; sys.path.insert(0,'/verif/tools')
from common import *; import own_gen, check_own
out=[]
progs=check_own.programs(600,4,int(sys.argv[1]),"se")
for r in aqh("run",progs):
    if "name" in r and ("panic" in r or "Ok" not in r.get("r",{})):
        f=[x for x in progs[r['file']] if x['name']==r['name']][0]
        out.append((f['last']-f['first'],r['file'],f['first'],f['last'],json.dumps(r.get('r',r.get('panic')))[:120]))
out.sort()
print(len(out))
for o in out[:int(sys.argv[2])]:
    print(o[4]); print(''.join(open(o[1]).readlines()[o[2]-1:o[3]]))
