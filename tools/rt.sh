cd /repo; bash /opt/vp/build.sh >/tmp/rt_b.log 2>&1 || { tail -20 /tmp/rt_b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1
python3 -c "
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('passed',len(o['passed']),'missing',sorted(set(b['stable'])-set(o['passed'])))"
