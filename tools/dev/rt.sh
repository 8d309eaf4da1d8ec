bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in o['passed']]
print("passed",len(o['passed']),"missing",m[:10])
P
