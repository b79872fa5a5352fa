#!/bin/bash
# runseeds.sh [ID...]: run the check of each planted bug's property against a scratch copy carrying the bug
cd /verif/seeded || exit 2
for id in ${@:-*}; do
	[ -f $id/patch.diff ] || continue
	p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
	rm -rf /tmp/seed_repo; cp -a /repo /tmp/seed_repo
	git -C /tmp/seed_repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
	t0=$(date +%s)
	VERIF_REPO=/tmp/seed_repo /verif/bin/check ${PROP:-$p} ${TIER:-quick} > /tmp/seed_out 2>&1; rc=$?
	echo "$id ${PROP:-$p}: exit $rc $(grep -c '^VIOLATION' /tmp/seed_out) violations, $(( $(date +%s) - t0 )) s"
	[ $rc = 1 ] || tail -3 /tmp/seed_out | cut -c1-300
	rm -rf /tmp/seed_repo
done
