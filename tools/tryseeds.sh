#!/bin/bash
# Runs every planted bug (or those named) against the checks, in scratch copies; prints which properties alarm.
cd /verif && bash setup.sh || exit 2
for s in ${@:-$(ls seeded)}; do
  w=$(mktemp -d); cp -a /repo "$w/repo"; (cd "$w/repo" && git apply /verif/seeded/$s/patch.diff) || { echo "$s: patch does not apply"; rm -rf "$w"; continue; }
  mkdir -p "$w/v"; cp known-findings.txt "$w/v/"
  GM_REPO="$w/repo" GM_VERIF="$w/v" bin/gmcheck all >"$w/out" 2>&1
  want=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  got=$(grep '^VIOLATION' "$w/out" | sed 's/.*property=\([A-Z0-9]*\).*/\1/' | tr '\n' ' ')
  case " $got " in *" $want "*) r=caught;; *) r=MISSED;; esac
  echo "$s: $r (want $want; alarms: $got)"
  rm -rf "$w"
done
