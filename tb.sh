#!/bin/bash
# dev helper: build and run one bin in one config
. /opt/vp/env.sh; export CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings VH_THREADS=8 VH_GEN=/verif/target/gen
export CARGO_TARGET_DIR=/verif/target/harness/sse2
cd /verif/harness
time cargo build --profile rel --bin $1 2>&1 | grep -E "^(error|warning: unused)|-->|Finished|^ +\|" -A6 | cut -c1-250 | head -${LINES_:-40}
time $CARGO_TARGET_DIR/rel/$1 "${@:2}" > /tmp/o.json; echo rc=$?; python3 - <<'P'
import json
d=json.load(open('/tmp/o.json'))
print({k:v for k,v in d.items() if k not in('samples','failures','rule')}); print(*[x[:300] for x in d['samples'][:6]],sep='\n'); print(len(d['failures']),'failures')
for f in d['failures'][:8]: print(f['group'],'|',f['desc'][:400],'|',f['msg'][:400])
P
