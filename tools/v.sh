#!/bin/bash
# v.sh unit [extra verus args]
u=$1; shift
mkdir -p /verif/build; cd /verif/build
python3 /verif/tools/extract.py $u /verif/build/$u.rs 2>/tmp/$u.rep || { tail -3 /tmp/$u.rep; exit 1; }
timeout ${VT:-200} verus $u.rs --crate-type bin --multiple-errors 6 --triggers-mode silent --rlimit ${RL:-10} "$@" 2>&1 | grep -v '^$' | head -${LINES_MAX:-120}
