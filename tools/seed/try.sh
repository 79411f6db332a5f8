#!/bin/bash
# try.sh ID: build, stable tests, demo on both trees, all checks on the patched tree (development tool).
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
id=$1; s=$(cd "$(dirname "$0")/../../seeded/$id" && pwd); w=/tmp/try.$id
rm -rf "/tmp/try.$id"; git clone -q /repo $w || exit 1
mkdir -p /tmp/trydemo; rm -rf /tmp/trydemo/$id; cp -r $s /tmp/trydemo/$id
(cd $w && bash /tmp/trydemo/$id/demo.sh >/tmp/trydemo/$id.0 2>&1); r0=$?
(cd $w && git apply $s/patch.diff && go build ./... && go vet ./... >/dev/null 2>&1; go test -count=1 ./... >/tmp/trydemo/$id.t 2>&1); rt=$?
(cd $w && bash /tmp/trydemo/$id/demo.sh >/tmp/trydemo/$id.1 2>&1); r1=$?
al=$(/tmp/dc -repo $w -verif /tmp/ve -all 2>&1 | grep -a ALARM | awk '{print $1}' | tr '\n' ' ')
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
st=ok; [ $r0 = 0 ] || st="DEMO-BAD-CLEAN($r0)"; [ $rt = 0 ] || st="$st TESTS-FAIL"; [ $r1 != 0 ] || st="$st DEMO-QUIET"
case " $al " in *" $p "*) c=CAUGHT;; *) c=MISSED;; esac
echo "$id prop=$p $st $c alarms: $al"
rm -rf "/tmp/try.$id"
