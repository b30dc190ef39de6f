#!/bin/sh
# rewrites ded/baseline.json from the unchanged tree (run by hand, never by a check)
cd "$(dirname "$0")/.."
seq -w 1 25 | xargs -P 7 -I{} sh -c 'python3-vt ded/main.py C{} --baseline > /tmp/base-C{}.json'
python3 - <<'E'
import json, glob
out = {}
for f in sorted(glob.glob("/tmp/base-C*.json")):
    out.update(json.loads(open(f).read().strip().splitlines()[-1]))
json.dump(out, open("ded/baseline.json", "w"), indent=1, sort_keys=True)
E
