#!/bin/bash
# seed.sh make ID   : confirms /verif/seeded/ID in a scratch copy (builds, tests pass, demo 0 / nonzero)
# seed.sh check ID PROP...: runs checks against the planted bug, then undoes it
cmd=$1; id=$2; shift 2
dir=/verif/seeded/$id
if [ $cmd = make ]; then
	s=/tmp/seedrepo-$id
	rm -rf "/tmp/seedrepo-$id"; cp -a /repo $s; cd $s
	# The build files name /repo: the copy is built by bind-free means, in place of it.
	git apply $dir/patch.diff || exit 3
	cd / ; unshare -Urm bash -c "mount --bind $s /repo && cd /repo && bash /opt/vp/build.sh >/tmp/seed-$id.log 2>&1 || { tail -5 /tmp/seed-$id.log; echo BUILD FAILS; exit 1; }
	bash /opt/vp/test.sh /tmp/seed-$id.json >/dev/null 2>&1
	python3 - <<P
import json
d=json.load(open('/tmp/seed-$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[x for x in b['stable'] if x not in set(d['passed'])]; print('stable tests missing', len(miss), [m[:200] for m in miss[:3]])
P
	sh $dir/demo.sh > /tmp/seed-$id.demo 2>&1; echo demo with patch: \$?; tail -3 /tmp/seed-$id.demo"
	cd /repo && sh $dir/demo.sh > /tmp/seed-$id.demo0 2>&1; echo demo on unchanged: $?; tail -3 /tmp/seed-$id.demo0
	rm -rf "/tmp/seedrepo-$id"
elif [ $cmd = check ]; then
	git -C /repo apply $dir/patch.diff || exit 3
	trap 'git -C /repo checkout -- .' EXIT
	for p in "$@"; do echo "== $id $p"; python3 /verif/check.py $p 2>&1 | grep -v "^[0-9]* runs" | cut -c1-400 | tail -6; echo "exit ${PIPESTATUS[0]}"; done
fi
