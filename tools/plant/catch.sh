#!/bin/bash
# catch.sh id...: runs the check of each planted bug's property against it
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  p=${PROP:-$p}
  r=/tmp/mut/c.$id; [ -e $r ] && rm -rf /tmp/mut/c.$id
  git clone -q /repo $r && git -C $r apply /verif/seeded/$id/patch.diff || { echo "$id APPLY"; continue; }
  s=$(date +%s)
  out=$(VERIF_REPO=$r /verif/check.sh $p quick 2>&1); code=$?
  e=$(date +%s)
  echo "$id $p exit=$code $((e-s))s $(echo "$out" | grep -m1 '^C[0-9][0-9]: ' | cut -c1-200)"
  [ $code = 1 ] || echo "$out" | tail -5 | cut -c1-600
  if [ $code = 1 ]; then rp=$(echo "$out" | sed -n 's/^VIOLATION.*replay=//p'); VERIF_REPO=$r /verif/replay.sh $rp >/tmp/mut/rp.out 2>&1; [ $? = 1 ] || { echo "   REPLAY FAILED"; tail -3 /tmp/mut/rp.out; }; fi
  rm -rf /tmp/mut/c.$id
done
