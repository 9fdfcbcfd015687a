#!/bin/bash
# unit results of one contract module: bash ru.sh module [unit substring] ; only what is not proved
cd "$(dirname "$0")"; VCG_DEBUG=1 timeout ${T:-900} python3-vt vcg/run1.py "$@" 2>&1 | grep -E "^==|^    (failed|unknown)|undecided|nsupported|Error" | grep -v "^==.* ok  t" | cut -c1-220 | head -${N:-40}
echo done
