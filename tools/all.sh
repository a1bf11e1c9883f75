#!/bin/bash
# run every check against $VERIF_REPO (default /repo), 8 at a time; prints what is not plainly held
V=$(cd "$(dirname "$0")/.." && pwd)
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")}
printf '%s\n' $ids | xargs -P 8 -I{} sh -c "out=\$(python3 $V/check.py --property {} 2>&1); rc=\$?; if [ \$rc != 0 ] || echo \"\$out\" | grep -q '^UNDEC\|^ABSENT'; then echo \"== {} rc=\$rc\"; echo \"\$out\" | cut -c1-\${W:-300} | head -\${N:-12}; fi"
