#!/bin/bash
# undo each repaired defect (regress/<commit>.diff) on a scratch copy of /repo and of /verif: its property's check has to report it
cd "$(dirname "$0")/.." || exit 2
V=$PWD
one() {
  D=$(mktemp -d /tmp/regress.XXXXXX)
  cp -a /repo "$D/repo" && mkdir "$D/verif" && cp -a "$V/spec" "$V/harness" "$V/check.py" "$V/known_findings.txt" "$D/verif/" && ln -s "$D/repo/src" "$D/dice_calc"
  if git -C "$D/repo" apply "$V/regress/$2.diff"; then
    out=$(cd "$D/verif" && PYTHONPATH=$D VERIF_REPO=$D/repo python3 check.py "$1" 2>&1)
    case $? in 1) echo "$1 $2 reported" ;; *) echo "$1 $2 NOT REPORTED: $(tail -1 <<<"$out")" ;; esac
  else echo "$1 $2 DOES NOT APPLY"; fi
  rm -rf "$D"
}
export -f one; export V
grep ^fixed: known_findings.txt | sed 's/fixed: property=\(C..\) \([0-9a-f]*\) .*/\1 \2/' | xargs -P 3 -L1 bash -c 'one $0 $1'
