#!/bin/bash
# try.sh ID...: confirms that the planted change builds, passes the stable tests, is shown by its
# demonstration, and reports what its property's quick check says. /repo must be clean.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
V=$(cd "$(dirname "$0")/../.." && pwd)
for id in "$@"; do
    d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    bash "$d/demo.sh" > /tmp/plant/$id.clean 2>&1; clean=$?
    git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bash /opt/vp/build.sh > /tmp/plant/$id.build 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/plant/$id.json > /tmp/plant/$id.test 2>&1
    t=$(python3 - $id <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/plant/{sys.argv[1]}.json'))
def names(x):
    return set(x) if isinstance(x, list) else set(k for k, v in x.items())
want=names(base.get('stable', base.get('passed', base.get('tests', []))))
got=names(r.get('passed', []))
print('ok' if want and want <= got else 'FAIL %s' % sorted(want-got)[:3])
P
)
    bash "$d/demo.sh" > /tmp/plant/$id.demo 2>&1; bug=$?
    s=$(date +%s); "$V/bin/check" "$prop" quick > /tmp/plant/$id.check 2>&1; c=$?
    git checkout -q -- .
    echo "$id $prop: demo clean=$clean build=$b tests=$t demo bug=$bug check=$c ($(( $(date +%s) - s )) s) $(grep -v VIOLATION /tmp/plant/$id.check | tail -1 | cut -c1-120)"
done
