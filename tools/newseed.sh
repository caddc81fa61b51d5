#!/bin/bash
# newseed.sh ID PROPERTY "needs" "what": record the diff of /tmp/seedwt as a planted bug with the demo kit beside it.
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seedwt diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo empty diff; exit 1; }
git -C /tmp/seedwt checkout -q -- .
cp /verif/tools/demokit/demo.sh $d/; [ "$5" = nokit ] || cp /verif/tools/demokit/kit_test.go $d/
python3 - "$@" <<P
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("$d/meta.json","w"),indent=1)
P
