#!/bin/bash
# tools/plant.sh ID [CHECK..]: confirms a planted bug (builds, passes the stable tests,
# demo passes without it and fails with it) in a scratch copy of /repo, and runs the
# quick checks named (default: that of its property) of the committed /verif against
# that copy (none if NOCHECK is set). It leaves /repo alone.
id=$1; shift
dir=/verif/seeded/$id
w=/tmp/plant.$$; mkdir -p $w; trap 'rm -rf "$w"' EXIT
(. /opt/vp/env.sh; export -p) >$w/env; . $w/env
cp -a /repo $w/repo; git clone -q /verif $w/verif
cd $w/repo && git checkout -q -- . || exit 2
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
demo() { mkdir -p $w/demo; cp -r $dir/. $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
  (cd $w/repo; export GOFLAGS="-mod=mod -buildvcs=false"; timeout 300 bash $w/demo/demo.sh >$w/demo.log 2>&1); }
demo; a=$?; tail -1 $w/demo.log | cut -c1-200
git apply $dir/patch.diff || exit 2
# lines changed must be original ones
git diff -U0 | python3 -c "
import sys,re,subprocess
f=None
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        s=int(m[1]); n=int(m[2] or 1)
        if n:
            o=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{s},+{n}','HEAD','--',f],capture_output=True,text=True).stdout
            bad=[x for x in o.splitlines() if not x.lstrip('^').startswith('388fc1')]
            for x in bad: print('NOT ORIGINAL:',x)
"
(export GOFLAGS="-mod=mod -buildvcs=false"; go build ./... ) || { echo "$id: does not build"; exit 2; }
demo; b=$?; tail -1 $w/demo.log | cut -c1-200
(export GOFLAGS="-mod=mod -buildvcs=false"; go test -json -vet=off -count=1 ./... >$w/tl.json 2>/dev/null; python3 /opt/vp/results.py $w/t.json gojson:$w/tl.json >/dev/null 2>&1
python3 - $w/t.json <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); got=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if isinstance(x,dict) and k in x: return names(x[k])
    return set(x if isinstance(x,list) else [k for k,v in x.items() if v in ('pass','passed',True)])
m=names(base)-names(got); print('stable tests missing:',sorted(m)[:5] if m else 'none')
P
)
git status --short | head -3
echo "$id demo clean=$a patched=$b"
sed -i "s#=> /repo#=> $w/repo#" $w/verif/harness/go.mod
cd $w/verif
[ -n "$NOCHECK" ] && exit 0
for c in ${@:-$prop}; do
  VERIF_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 run.py check $c quick >$w/out 2>&1; r=$?
  echo "$id $c rc=$r $(grep -a VIOLATION $w/out | head -1 | cut -c1-200) $(tail -1 $w/out | cut -c1-160)"
done
