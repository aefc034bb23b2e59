#!/bin/bash
# builds every harness from the committed files and /repo's tree; needs nothing but g++ and python3
set -e
cd "$(dirname "$0")"
python3 - <<'P' | xargs -P 4 -n 2 ./build.sh
import json
s=set()
for c in json.load(open('checks.json')).values():
    for r in c['runs']: s.add((r['harness'], r.get('flavour','plain')))
for h,f in sorted(s): print(h,f)
P
