#!/bin/bash
# dev helper: build and run cx bins
cd /verif/cx
for c in "$@"; do
CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/build/cx cargo build -q $FEAT --bin $c 2>&1 | grep -E '^error' -A9 | head -60
echo == $c; timeout 900 ../build/cx/debug/$c --tier ${TIER:-quick} --out /tmp/$c.json; C=$c python3 - <<P
import json,os
d=json.load(open('/tmp/%s.json'%os.environ['C']))
for g in d['groups']: print(g['group'],g['cases'],'/',g['requested'],g['classes'],round(g['seconds'],1))
for f in d['failures']: print('FAIL',f['group'],f['case'],f['message'][:1500])
P
done
