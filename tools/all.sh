#!/bin/bash
# every registered check on the current tree, one line each
cd /verif
for p in ${@:-$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}; do python3 checks/run.py $p quick; done
