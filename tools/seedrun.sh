#!/bin/bash
# run the check of a seeded bug: seedrun.sh id [prop]
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
d=/tmp/sr/$id-$p; mkdir -p /tmp/sr; rm -rf $d; git -C /repo worktree prune; cp -a /repo $d; git -C $d apply /verif/seeded/$id/patch.diff || echo NOAPPLY $id
t=$(date +%s); VP_REPO=$d /verif/check.py $p > $d.log 2>&1; echo "$id $p rc=$? $(( $(date +%s) - t ))s $(grep -m1 '^\[' $d.log)"; rm -rf $d
