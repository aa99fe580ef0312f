#!/bin/bash
# tools/seedcheck.sh ID [notests]: confirms one planted bug in a scratch copy of /repo: the patch applies, the demo passes
# without it, the tree builds, the stable tests pass and the demo fails with it. /opt/vp/*.sh work on /repo itself, so the
# copy is bind-mounted over /repo in a private mount namespace.
set -u
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$id
tmp=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$tmp/repo"; cp -a "$d" "$tmp/demo"; rm -f "$tmp"/demo/*.diff "$tmp"/demo/meta.json
git -C "$tmp/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$tmp"; exit 1; }
(cd /repo && timeout 300 bash "$tmp/demo/demo.sh" >"$tmp/demo0.log" 2>&1); a=$?
unshare -m bash -c "mount --bind $tmp/repo /repo && cd /repo && (bash /opt/vp/build.sh >$tmp/build.log 2>&1; echo build rc \$?; timeout 300 bash $tmp/demo/demo.sh >$tmp/demo1.log 2>&1; echo demo rc \$? >$tmp/demo1.rc; [ '${2:-}' = notests ] || bash /opt/vp/test.sh $tmp/out.json >$tmp/test.log 2>&1)" >$tmp/steps.log
b=$(awk '{print $3}' "$tmp/demo1.rc")
t=skipped; [ -f "$tmp/out.json" ] && t=$(python3 - "$tmp/out.json" <<'P'
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print('missing:%s' % sorted(s-o) if s-o else 'all stable pass')
P
)
echo "$id: $(cat $tmp/steps.log); demo clean=$a patched=$b; tests: $t"
tail -n 2 -q "$tmp/demo0.log" "$tmp/demo1.log" | cut -c1-200
rm -rf "$tmp"
