#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS: take the uncommitted change of /repo as
# seeded/ID (demo_test.go is expected there), and undo it.
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff; git -C /repo checkout -q -- .
[ -f $S/demo.sh ] || cp /verif/tools/demo.sh $S/demo.sh
python3 -c "
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('$S/meta.json','w'),indent=1)" "$@"
