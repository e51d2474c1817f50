#!/bin/bash
# every claimed check, in parallel (regression helper)
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  (timeout 900 python3 sa/run.py $p > /tmp/o.$p 2>&1; echo "rc=$?" >> /tmp/o.$p) &
  while [ $(jobs -r | wc -l) -ge 3 ]; do sleep .2; done
done; wait
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do echo "== $p"; cut -c1-${W:-300} /tmp/o.$p | grep -v '^KNOWN' | tail -${N:-4}; done
