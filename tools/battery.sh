#!/bin/bash
# battery.sh ID [-race]: run the concrete replay tests of one property on /repo.
cd /verif && python3 - "$1" > /tmp/ov_$1.json <<'P'
import sys,os,json
i=sys.argv[1].lower(); R={}; REPO=os.environ.get('REPO','/repo')
for d,_,fs in os.walk('/verif/replay'):
    rel=os.path.relpath(d,'/verif/replay')
    if any(f.startswith(i+'_') for f in fs):
        for f in fs:
            if f.startswith(i+'_') or f.startswith('common_'): R[f'{REPO}/{rel}/zz_verif_{f}']=f'{d}/{f}'
print(json.dumps({"Replace":R}))
P
cd ${REPO:-/repo} && go test $2 -overlay /tmp/ov_$1.json -vet=off -count=1 -p 1 -timeout 220s -run "^TestVerif$1" $(cd /verif/replay && find . -name "$(echo $1 | tr A-Z a-z)_*_test.go" -printf '%h\n' | sort -u)
rm -f /tmp/ov_$1.json
