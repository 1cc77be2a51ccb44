#!/bin/bash
# usage: tools/try.sh SEEDED_ID [PROPERTY]  - runs the check against a scratch copy with the planted bug
d=$(mktemp -d); cp -a /repo "$d/repo"; git -C "$d/repo" apply /verif/seeded/$1/patch.diff || exit 9
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
VERIF_REPO=$d/repo /verif/bin/check $p ${3} 2>/dev/null | grep -v '^VIOL' | head -3; echo "$1 $p exit ${PIPESTATUS[0]}"
rm -rf "$d"
