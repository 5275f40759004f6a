#!/bin/bash
# tryg.sh BIN.. : builds and runs workloads that use generated declarations; env SEED, EXO, ARGS
cd /verif/harness/gencase; export GEN_DIR=/verif/harness/gen CARGO_TARGET_DIR=/verif/harness/target
python3 /verif/tools/gen_types.py ${SEED:-1} $GEN_DIR/types.rs $EXO
for b in "$@"; do cargo build --offline --bin $b 2>&1 | grep -E "^(error|warning: unused)" -A9 | cut -c1-300; rm -f /tmp/$b.json; $CARGO_TARGET_DIR/debug/$b --out /tmp/$b.json --seed ${SEED:-1} $ARGS; python3 - <<E
import json
r=json.load(open('/tmp/$b.json')); print('$b', {k:r[k] for k in ('cases','evaluations','distinct','skipped','hung','wall_s')}); print(r['counts'], r['max'])
for v in r['violations'][:${NV:-4}]: print('VIOL', v['case'], v['what'][:2500])
E
done
