# tryseed.sh ID [CHECK ...]
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b0.log 2>&1
bash $d/demo.sh >/tmp/d0.log 2>&1; r0=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/b1.log 2>&1; rb=$?
bash $d/demo.sh >/tmp/d1.log 2>&1; r1=$?
bash /opt/vp/test.sh /tmp/so.json >/dev/null 2>&1
nb=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('/tmp/so.json'))['passed'])
x=[q for q in b if q not in o];print(len(x),x[:4])")
echo "$id: demo clean=$r0 build=$rb demo bug=$r1 ($(tail -1 /tmp/d1.log | cut -c1-150)) broken tests: $nb"
for c in "$@"; do ( cd /verif; VP_MAXV=1 timeout 900 python3 mc/run.py $c >/tmp/c.log 2>&1; echo "   $c rc=$? $(grep -m1 '^  \[' /tmp/c.log | cut -c1-220)" ); done
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/b0.log 2>&1
