#!/bin/bash
# dev: run every unit of every contract module, list what is not proved
cd /verif
for m in geometry cells tables fields material tally sens $@; do [ -f contracts/$m.py ] && (timeout 900 python3-vt vcg/run1.py $m > /tmp/units.$m 2>&1) & done; wait
for m in geometry cells tables fields material tally sens $@; do grep -H "^    [a-z]" /tmp/units.$m | grep -v "    proved" | cut -c1-200; grep -H "undecided\|missing" /tmp/units.$m | cut -c1-200; done
