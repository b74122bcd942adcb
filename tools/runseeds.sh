#!/bin/bash
# runseeds.sh ID...  (default: all): runs the check of each planted change's property against a scratch copy with the change
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
one() { id=$1; w=$(mktemp -d /tmp/rs_XXXXXX); cp -a /repo $w/repo; git -C $w/repo checkout -q -- .; mkdir $w/verif; cp -a check.py engine contracts tools MANIFEST.json known_findings.json $w/verif/; mkdir $w/verif/evidence
  git -C $w/repo apply $PWD/seeded/$id/patch.diff || echo "$id: DOES NOT APPLY"; s=$(date +%s)
  ( cd $w/verif; VERIF_REPO=$w/repo PYTHONPATH=$w/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python check.py --property ${PROP:-${id%%-*}} --tier quick --jobs ${J:-4} > $w/o 2>&1; echo "$id rc $? $(( $(date +%s)-s ))s $(grep -B2 -m1 VIOLATION $w/o | head -1 | cut -c1-150) $(grep -o -m1 no-failing.* $w/o)" )
  rm -rf "$w"; }
export -f one
printf '%s\n' "$@" | xargs -P ${P:-2} -I{} bash -c 'one {}'
