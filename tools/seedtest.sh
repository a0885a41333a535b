#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in scratch copies bound over /repo in a private mount namespace, and runs the property's check on each.
# Development aid only: no check uses it.
one() {
	id=$1; v=${2:-check}; s=/verif/seeded/$id; t=/tmp/seedtest-$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	cp -a /repo "$t" || return 1
	unshare -m bash -c "
		mount --bind $t /repo && cd /repo && git checkout -q -- . || exit 9
		bash /opt/vp/build.sh >/dev/null 2>&1 || { echo '$id: base does not build'; exit 1; }
		bash $s/demo.sh >/tmp/seedtest-$id.d0 2>&1 || { echo '$id: DEMO FAILS ON BASE'; tail -3 /tmp/seedtest-$id.d0; exit 1; }
		git apply $s/patch.diff || { echo '$id: does not apply'; exit 1; }
		bash /opt/vp/test.sh /tmp/seedtest-$id.json >/tmp/seedtest-$id.log 2>&1
		python3 - <<P || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest-$id.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
miss=sorted(set(st)-set(r['passed']))
if miss: print('$id: BREAKS TESTS', len(miss), miss[:4]); sys.exit(1)
P
		bash $s/demo.sh >/tmp/seedtest-$id.d1 2>&1 && { echo '$id: DEMO PASSES WITH THE BUG'; exit 1; }
		tail -1 /tmp/seedtest-$id.d1
		[ $v = demo ] && exit 0
		cd /verif; python3 mc/run.py $p >/tmp/seedtest-$id.c 2>&1; rc=\$?
		if [ \$rc = 1 ] && grep -q 'VIOLATION property=$p' /tmp/seedtest-$id.c; then echo '$id: caught by $p:' \$(grep '^violated' /tmp/seedtest-$id.c | head -1 | cut -c1-200); else echo '$id: MISSED by $p (exit '\$rc')'; tail -2 /tmp/seedtest-$id.c; fi
	"
	rm -rf "/tmp/seedtest-$id"
}
mode=check; [ "$1" = --demo ] && { mode=demo; shift; }
[ $# = 0 ] && set -- $(ls /verif/seeded)
for i; do one $i $mode; done
