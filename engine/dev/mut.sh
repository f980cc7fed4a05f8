#!/bin/bash
# mut.sh 'FILE|||OLD|||NEW' PID...   apply a textual change to a scratch copy of the sources and run checks on it
d=$(mktemp -d /tmp/mut.XXXX); mkdir $d/r; B=${BASE:-/repo}; cp -a $B/src $B/include $B/Makefile $B/CMakeLists.txt $d/r/ 2>/dev/null
python3 - "$d/r" "$1" <<'P' || { rm -rf "$d"; exit 9; }
import sys
f,o,n=sys.argv[2].split("|||")
p=sys.argv[1]+"/"+f
s=open(p).read()
if s.count(o)!=1: sys.exit("pattern found %d times"%s.count(o))
open(p,"w").write(s.replace(o,n))
P
shift
for p in "$@"; do ISO_REPO=$d/r python3 /verif/engine/check.py $p ${CFG:+--config $CFG} 2>&1 | grep -v "^rule\|^  note" | grep -E "key=|VIOLATION|BROKEN|rror|wall" | cut -c1-260; done
rm -rf "$d"
