#!/bin/bash
# try.sh SEED PROP...: run checks against a planted bug in the scratch copy /tmp/wt
S=$1; shift
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
git -C /tmp/wt checkout -q -- .; git -C /tmp/wt apply /verif/seeded/$S/patch.diff || exit 9
export WBSA_REPO=/tmp/wt WBSA_BUILD=/tmp/wt_build WBSA_EVIDENCE=/tmp/wt_ev
for p in "$@"; do python3 /verif/checks/run.py $p quick; python3 - <<P2
import json
for o in json.load(open("/tmp/wt_ev/$p.json"))["coverage"]["undecided_obligations"]: print("  UND", o["key"], "|", o["detail"][-700:])
P2
done
git -C /tmp/wt checkout -q -- .
