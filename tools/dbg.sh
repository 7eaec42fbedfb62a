#!/bin/bash
cd /verif; QSA_DEBUG=1 python3 -m qsa $1 2>&1 | head -${2:-40} | cut -c1-600; python3 -c "
import json;e=json.load(open('evidence/$1.json'));print(*e['coverage']['undecided'][:25],sep='\n');print(e['coverage']['instances_per_rule'],e['coverage'].get('anchors_missing'))" | cut -c1-400
