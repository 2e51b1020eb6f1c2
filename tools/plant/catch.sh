#!/bin/bash
# catch.sh ID...: run the check of its property against each planted bug (in a clone)
one() {
  id=$1; d=$(mktemp -d); git clone -q /repo $d/repo
  git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; exit; }
  pid=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  out=$(cd /verif && QTUNE_REPO=$d/repo VP_SCRATCH=1 timeout 900 python3 check.py $pid --seed ${SEED:-1} 2>&1); rc=$?
  echo "$id $pid rc=$rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-150) $(echo "$out" | grep -m1 -A1 -i clause | cut -c1-160 | tr '\n' ' ')"
  rm -rf $d
}
export -f one
printf '%s\n' "$@" | xargs -P ${P:-4} -I{} bash -c 'one {}'
