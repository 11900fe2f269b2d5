#!/bin/bash
# quiet.sh seeds... : runs all checks from a copy of the committed tree
V=/tmp/qv$$; git clone -q /verif $V; cd $V; cp -a /verif/evidence $V/ 2>/dev/null
for s in "$@"; do for c in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19; do out=$(VP_OUT=/tmp/qv$$/out VERIF_SEED=$s timeout 900 ./check.py $c --scale ${SCALE:-1} 2>&1); rc=$?; [ $rc != 0 ] && { echo "seed $s $c rc=$rc"; echo "$out" | grep -v KNOWN | tail -15 | cut -c1-1500; }; done; done; echo done $*; rm -rf $V
