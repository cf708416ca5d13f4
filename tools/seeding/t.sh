bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/tt.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k]) if isinstance(x[k],list) else {n for n,v in x[k].items() if v in('pass','passed',True)}
    return set(x)
pb=passed(b);po=passed(o); print(len(pb),len(po),"missing",sorted(pb-po)[:5])
P
