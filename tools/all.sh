#!/bin/bash
cd /verif
for p in ${@:-$(python3 -c "from qsa.registry import MODULES;print(*MODULES)")}; do python3 -m qsa $p | grep -v KNOWN | tail -4 | cut -c1-400; done
