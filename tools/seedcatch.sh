#!/bin/bash
# seedcatch.sh ID [PROPERTY...]: runs checks against a planted bug, in a copy of the repository.
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
shift
R=/tmp/sv/try
mkdir -p /tmp/sv/trybuild
[ -d $R ] || git clone -q /repo $R
git -C $R fetch -q /repo HEAD && git -C $R checkout -q -f FETCH_HEAD
git -C $R apply "$S/patch.diff" || exit 1
export VERIF_REPO=$R VERIF_BUILD=/tmp/sv/trybuild VERIF_SEED=${VERIF_SEED:-1}
for p in ${@:-$P}; do
    out=$(cd /verif && python3 tools/check.py $p ${TIER:-quick} 2>&1); r=$?
    echo "$(basename $S) $p exit=$r $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-250)"
done
git -C $R checkout -q -- .
