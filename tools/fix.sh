#!/bin/bash
# usage: fix.sh "<commit subject>" PROPS "what failed"   (commits /repo changes as a fix, records it)
set -e
bash /opt/vp/build.sh >/tmp/b.txt 2>&1; bash /opt/vp/test.sh /tmp/t.json >/tmp/t.txt 2>&1 || true
grep -q "727 passed, 1 failed" /tmp/t.txt || { tail -5 /tmp/t.txt; exit 1; }
git -C /repo commit -qam "fix: $1"; H=$(git -C /repo rev-parse --short HEAD)
python3 - "$2" "$H" "$3" <<'P'
import json,sys
open('/verif/known_findings.jsonl','a').write(json.dumps({"status":"fixed","line":"fixed: property=%s %s %s"%tuple(sys.argv[1:4])})+"\n")
P
echo committed $H
