#!/bin/bash
# seedtest.sh ID...: confirms that a planted bug applies, builds, passes the
# stable tests and is shown by its demo; works in a scratch copy mounted nowhere.
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on TZ=UTC
for id in "$@"; do
  W=/tmp/seed_w_$id
  rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 1
  git checkout -q -- . 
  D=/tmp/seed_d_$id; rm -rf "$D"; mkdir "$D"; cp "$V"/seeded/$id/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
  ( bash "$D/demo.sh" >"/tmp/seed_$id.clean.log" 2>&1 ); c=$?
  git apply "$V/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  go build ./... >/tmp/seed_$id.build.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -3 /tmp/seed_$id.build.log; }
  go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/seed_$id.json 2>/dev/null
  python3 - "$id" /tmp/seed_$id.json <<'P'
import json,sys
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
got={}
for l in open(sys.argv[2]):
    try: d=json.loads(l)
    except ValueError: continue
    if d.get('Test') and d['Action'] in('pass','fail','skip'): got[d['Package']+'/'+d['Test']]=d['Action']
b=list(base)[:1]
def norm(x): return x
miss=[x for x in base if got.get(x)!='pass']
print(sys.argv[1],'stable not passing:',len(miss),miss[:5], 'sample', b if len(miss)>400 else '', list(got)[:1] if len(miss)>400 else '')
P
  ( timeout 300 bash "$D/demo.sh" >"/tmp/seed_$id.bug.log" 2>&1 ); b=$?
  echo "$id: demo clean=$c (want 0) bug=$b (want !=0)"
  [ $c = 0 ] || tail -5 /tmp/seed_$id.clean.log
  cd /; rm -rf "$W" "$D" /tmp/seed_$id.json
done
