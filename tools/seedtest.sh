#!/bin/bash
# seedtest.sh ID [CHECK...]: in a copy of /repo shown at /repo: build, tests, demo and the checks with a planted bug.
id=$1; shift
s=/verif/seeded/$id
r=/tmp/seed-$id
if [ -z "$SEED_NS" ]; then
  mkdir -p "$r" && rsync -a --delete /repo/ "$r/" || exit 1
  SEED_NS=1 SX_CACHE=${SX_CACHE-/tmp/sxcache} unshare -Urm bash "$0" "$id" "$@"
  rc=$?
  rm -rf "$r"
  exit $rc
fi
mount --bind "$r" /repo || exit 1
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo
d=/tmp/seed-demo-$id; rm -rf "$d"; cp -r "$s" "$d"; rm -f "$d"/*.diff "$d"/meta.json
bash "$d/demo.sh" > /tmp/seed-$id.demo0 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > /tmp/seed-$id.build 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/seed-$id.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed-$id.json > /tmp/seed-$id.test 2>&1
t=$(tail -1 /tmp/seed-$id.test)
bash "$d/demo.sh" > /tmp/seed-$id.demo1 2>&1; b=$?
rm -rf "$d"
res=
for p in ${@:-$prop}; do
  mkdir -p /tmp/seedv-$id && rsync -a --delete --exclude=seeded --exclude=.git /verif/ /tmp/seedv-$id/
  (cd /tmp/seedv-$id && timeout 1200 python3 check.py $p > /tmp/seed-$id.$p.out 2>&1); c=$?
  res="$res $p:rc=$c $(grep -c '^VIOLATION' /tmp/seed-$id.$p.out) $(grep -m1 '^VIOLATION\|CHECK-FAILED\|violation' /tmp/seed-$id.$p.out | cut -c1-150)"
  rm -rf /tmp/seedv-$id
done
echo "$id: demo clean=$a bug=$b tests=[$t] checks:$res"
