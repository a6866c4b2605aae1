#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/gmcheck" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$here/bin/gmcheck" -print -quit)" ]; then
  bash "$here/setup.sh" || exit 2
fi
export GM_VERIF="$here" GM_REPO="${GM_REPO:-/repo}"
exec "$here/bin/gmcheck" check "$1" --tier "${2:-quick}"
