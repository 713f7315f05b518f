#!/bin/bash
# tools/try.sh SEED-ID [PROP]: apply a seeded change to /repo, run its check, undo
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
r=$(mktemp -d /tmp/try_XXXX); cp -a /repo $r/repo; git -C $r/repo apply $d/patch.diff || exit 9
cd /verif && VERIF_REPO=$r/repo python3 check.py $p; echo "rc=$?"; rm -rf $r
