#!/bin/bash
# undecided obligations of a property's last run
python3 - "$1" "${2:-40}" <<'P'
import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for u in d['coverage']['undecided'][:int(sys.argv[2])]: print(u[:420])
P
