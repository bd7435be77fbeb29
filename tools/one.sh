#!/bin/bash
# one.sh CHECK SPECFILE: run one spec (JSON on one line)
f=$(mktemp); python3 -c "
import json,sys
s=json.loads(open('$2').read().strip()); json.dump(s if 'spec' in s else {'spec':s},open('$f','w'))"
VERIF_DEBUG=1 python3 /verif/checks/$1.py --replay $f 2>&1 | tail -${3:-30}
