cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1; tail -1 /tmp/b.log; bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/out.json'))
x=[x for x in b if x not in set(o['passed'])]
print("broken:", len(x), x[:8])
P
git status --short
