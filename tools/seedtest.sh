#!/bin/bash
# seedtest.sh [-n] ID...: in a private mount namespace with copies of /repo and /verif, confirm a
# planted change (applies, builds, stable tests pass, demo 0 -> nonzero) and run its property's check.
# -n: skip confirmation, run the check only.   OTHER="P1 P2" runs other checks too.
if [ -z "$IN_NS" ]; then
  export NS=$(mktemp -d /tmp/seedtest.XXXX)
  cp -a /repo "$NS/repo"; mkdir "$NS/verif"
  rsync -a --exclude work --exclude .git /verif/ "$NS/verif/" 2>/dev/null || cp -a /verif/. "$NS/verif/"
  export IN_NS=1
  unshare -Urm bash "$0" "$@"; rc=$?
  rm -rf "$NS"; exit $rc
fi
mount --bind "$NS/repo" /repo; mount --bind "$NS/verif" /verif
cd /repo
confirm=1; [ "$1" = -n ] && { confirm=0; shift; }
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  res="$id [$P]"
  if [ $confirm = 1 ]; then
    bash $S/demo.sh >$NS/d0.log 2>&1 && res="$res demo0=ok" || { res="$res demo0=BAD"; tail -5 $NS/d0.log; }
  fi
  git apply $S/patch.diff || { echo "$res NOAPPLY"; continue; }
  if [ $confirm = 1 ]; then
    bash /opt/vp/build.sh >$NS/b.log 2>&1 && res="$res build=ok" || { res="$res build=BAD"; tail -5 $NS/b.log; }
    bash /opt/vp/test.sh $NS/t.json >$NS/t.log 2>&1 && res="$res tests=ok" || res="$res tests=BAD"
    bash $S/demo.sh >$NS/d1.log 2>&1 && { res="$res demo1=BAD"; } || res="$res demo1=fails($(tail -1 $NS/d1.log | cut -c1-80))"
  fi
  for q in $P $OTHER; do
    timeout 900 python3 /verif/bin/check.py $q quick >$NS/c.log 2>&1; rc=$?
    res="$res check:$q=$rc"; [ $rc != 0 ] && res="$res {$(grep -v '^VIOL' $NS/c.log | tail -1 | cut -c1-160)}"
  done
  git checkout -q -- .
  echo "$res"
done
