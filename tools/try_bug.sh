#!/bin/bash
# try_bug.sh ID [notest]: confirm a planted bug in a scratch copy of /repo
ID=$1; B=/verif/seeded/$ID; WT=/tmp/wt_$ID
rm -rf /tmp/wt_$ID; cp -a /repo $WT; cd $WT || exit 1
( cd $WT; bash $B/demo.sh >/tmp/wt_$ID.demo0 2>&1 ); D0=$?
git apply $B/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
( cd $WT; bash $B/demo.sh >/tmp/wt_$ID.demo1 2>&1 ); D1=$?
T=skipped
if [ "$2" != notest ]; then
  sed "s#/opt/vp/work/run#/tmp/wtrun_$ID#;s#/repo/#$WT/#g;s#=/repo#=$WT#g;s#-n 8#-n 6#" /opt/vp/test.sh > /tmp/wt_$ID.sh
  bash /tmp/wt_$ID.sh /tmp/wt_$ID.json > /tmp/wt_$ID.test 2>&1
  T=$(/usr/bin/python3 - /tmp/wt_$ID.json <<'P'
import json,sys
def passed(d):
    return d
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x:
                v=x[k]
                return set(v if isinstance(v,list) else [n for n,s in v.items() if s in('passed','pass',True)])
    return set(x)
m=names(b)-names(o)
print('tests ok' if not m else 'BROKEN '+' '.join(sorted(m))[:400])
P
)
fi
P=$(/usr/bin/python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cd /verif; VERIF_REPO=$WT VERIF_EVIDENCE=/tmp/wt_$ID.ev timeout 900 python3 check.py $P > /tmp/wt_$ID.check 2>&1; C=$?
echo "$ID ($P): demo $D0/$D1; $T; check rc=$C $(grep -h VIOLATION /tmp/wt_$ID.check | head -1)"
rm -rf /tmp/wt_$ID /tmp/wtrun_$ID
