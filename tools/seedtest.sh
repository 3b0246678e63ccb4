#!/bin/bash
# seedtest.sh ID: whether a planted bug counts. Works in /tmp/sv (a copy of the repository and its test scripts).
S=/verif/seeded/$1
R=/tmp/sv/repo
if [ ! -d "$R" ]; then
    mkdir -p /tmp/sv; cp -a /repo "$R"; cp -r /opt/vp /tmp/sv/vp
    (cd /tmp/sv/vp && sed -i 's#/repo#/tmp/sv/repo#g; s#/opt/vp#/tmp/sv/vp#g' build.sh env.sh test.sh programs.py results.py)
fi
git -C $R fetch -q /repo HEAD && git -C $R checkout -q -f FETCH_HEAD && git -C $R clean -qfd
rm -rf /tmp/sv/demo; cp -r "$S" /tmp/sv/demo; rm -f /tmp/sv/demo/*.diff /tmp/sv/demo/meta.json
bash /tmp/sv/vp/build.sh >/tmp/sv/log 2>&1 || { echo "$1: base build failed"; exit 1; }
(cd $R && timeout 300 bash /tmp/sv/demo/demo.sh >/tmp/sv/demo0 2>&1); a=$?
git -C $R apply "$S/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
bash /tmp/sv/vp/build.sh >/tmp/sv/log 2>&1 || { echo "$1: build failed"; tail -20 /tmp/sv/log; exit 1; }
(cd $R && timeout 300 bash /tmp/sv/demo/demo.sh >/tmp/sv/demo1 2>&1); b=$?
bash /tmp/sv/vp/test.sh /tmp/sv/t.json >/dev/null 2>&1
t=$(python3 -c "
import json
a=json.load(open('/tmp/sv/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(sorted(set(b['stable'])-set(a['passed']))[:5])")
git -C $R checkout -q -- .
echo "$1: demo unchanged=$a patched=$b failing tests=$t"
