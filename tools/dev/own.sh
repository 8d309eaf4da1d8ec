cd /verif; cat > /tmp/own.py <<'P'
import sys; sys.path.insert(0,'/verif/tools')
from common import *; import check_own, json
n=int(sys.argv[1]); seed=int(sys.argv[2])
recs=check_own.observe(check_own.programs(n,4,seed,"s"))
with open('/tmp/own.ndjson','w') as f:
    for r in recs: f.write(json.dumps({k:v for k,v in r.items() if k!='raw'})+'\n')
log(len(recs), sum(len(r['obs']) for r in recs), sum(1 for r in recs if not r['errs']))
P
python3 /tmp/own.py ${1:-40} ${2:-1}
cd specs/lang; printf 'SPECIFICATION Spec\nVIEW View\nCONSTANT GoOn = TRUE\nINVARIANTS OneResult OneBoundaryPerUse NothingElse ActualRight AcceptedComplete RejectedMissing CutOff\nCHECK_DEADLOCK FALSE\n' > /tmp/own.cfg
FACTS=/tmp/own.ndjson JAVA_TOOL_OPTIONS="-Xss64m" tlc -noGenerateSpecTE -workers 8 -metadir /tmp/tlcown -config /tmp/own.cfg Ownership.tla > /tmp/own.txt 2>&1
grep -a MISMATCH /tmp/own.txt | grep -oE '"MISMATCH\\", \\"[a-z ]*' | sort | uniq -c; grep -aE "^Error|generated|Finished" /tmp/own.txt | head
