#!/bin/bash
# dev: build and run a driver: dev_search.sh PID seed secs
exe=$(python3 /verif/native.py $1) || exit 9
d=$(mktemp -d); cd $d; TMPDIR=$d $exe search ${2:-1} ${3:-8} $d/rep; echo "rc $?"; cut -c1-900 $d/rep | tail -6; cd /; rm -rf "$d"
