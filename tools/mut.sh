#!/bin/bash
# mut.sh PROP FILE PYEXPR_OLD PYEXPR_NEW: run a check against a scratch copy of /repo with one replacement
rm -rf /tmp/mut_repo; cp -a /repo /tmp/mut_repo
python3 - "$2" "$3" "$4" <<'P' || exit 9
import sys
p='/tmp/mut_repo/'+sys.argv[1]; s=open(p).read()
assert s.count(sys.argv[2])>=1, "pattern not found"
open(p,'w').write(s.replace(sys.argv[2], sys.argv[3],1))
P
VERIF_REPO=/tmp/mut_repo /verif/bin/check $1 ${TIER:-quick} 2>&1 | tail -4 | cut -c1-300
rm -rf /tmp/mut_repo
