cd /verif/specs/perm
for c in ${C:-P01 P02 P03}; do echo "== $c"; sed "s,GoOn = FALSE,GoOn = TRUE," MirPerms_$c.cfg > /tmp/s_$c.cfg; FACTS=${1:-/tmp/f.ndjson} tlc -noGenerateSpecTE -workers 8 -metadir /tmp/tlcmeta -config /tmp/s_$c.cfg MirPerms.tla > /tmp/survey_$c.txt 2>&1; grep -a MISMATCH /tmp/survey_$c.txt > /tmp/mm_$c.txt;  python3 - /tmp/mm_$c.txt <<'P'
import sys,re,collections
c=collections.Counter(); ex={}
for l in open(sys.argv[1],errors='replace'):
    m=re.findall(r'"([^"]*)"',l)
    k=(m[1],m[2]); c[k]+=1; ex.setdefault(k,l.strip()[:400])
for k,n in c.items(): print(n,ex[k])
P
grep -aE "^Error|generated|Finished" /tmp/survey_$c.txt | sort | uniq -c | sort -rn | head -8; done
