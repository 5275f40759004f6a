#!/bin/bash
# try.sh BIN.. : builds and runs workload binaries directly, prints what they saw
cd /verif/harness; export GEN_DIR=/verif/harness/gen
for b in "$@"; do cargo build --offline --bin $b 2>&1 | grep -E "^(error|warning: unused)" -A9; rm -f /tmp/$b.json; s=$(date +%s.%N); ./target/debug/$b --out /tmp/$b.json --seed ${SEED:-1} $ARGS; python3 - <<P
import json,time
r=json.load(open('/tmp/$b.json')); print('$b', {k:r[k] for k in ('cases','evaluations','distinct','skipped','hung','wall_s')}); print(r['counts'], r['max'])
for v in r['violations'][:4]: print('VIOL', v)
P
done
