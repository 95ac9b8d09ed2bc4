#!/bin/bash
# usage: seed.sh <bug id> <property> "<needs>" "<what it breaks>"  -- turns the working diff of /repo into a planted bug
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
test -s "$d/patch.diff"
python3 - "$d" "$2" "$3" "$4" <<'P'
import json, sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open(sys.argv[1] + '/meta.json', 'w'), indent=1)
P
git -C /repo checkout -- .
