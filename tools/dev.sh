#!/bin/bash
# dev.sh UNIT [verus args] : verify one unit against an expansion made by expand.sh
cd /verif/work
python3 -c "
import sys; sys.path.insert(0,'/verif/tools'); import verify; open('skel.rs','w').write(verify.skeleton('$1'))"
shift
SRCS=""
for f in /tmp/exp/expand/*.rs; do SRCS="$SRCS --src $(basename $f .rs)=$f"; done
/verif/vx/target/debug/vx $SRCS --skel skel.rs --out out.rs --map map.json || exit 2
python3 - <<'P'
import json
m=json.load(open('/verif/work/map.json'))
for e in m['errors']: print('ERR',e)
for f in m['fns']:
    if f['degraded']: print('DEGR',f['id'],f['reason'])
P
verus out.rs --crate-type lib --triggers-mode silent "$@"
