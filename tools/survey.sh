#!/bin/bash
# survey.sh <harness> <cases> props... (development): every violation, grouped
h=$1; n=$2; shift 2
for p in "$@"; do echo "== $p"
rm -f /tmp/vdev/err.*
for w in 0 1 2 3 4 5 6 7; do (VH_SURVEY=1 timeout 300 /verif/tools/drun.sh /tmp/vdev/$h --prop $p --from $w --to $n --stride 8 --state /tmp/vdev/state.$w >/dev/null 2>/tmp/vdev/err.$w || echo "EXIT $? at $(head -c 80 /tmp/vdev/state.$w)" >>/tmp/vdev/err.$w) 2>/dev/null & done; wait
cat /tmp/vdev/err.* | grep -a SURVEY | sed 's/^SURVEY case \([0-9]*\) /\1 /' | awk '{c=$1; $1=""; k=$0; gsub(/[-0-9.e+]{2,}/,"N",k); gsub(/[0-9]+/,"#",k); k=substr(k,1,'${KEY:-60}'); n[k]++; if(!(k in f)) f[k]=c " " substr($0,1,'${COLS:-170}')} END {for(k in n) print n[k], f[k]}' | sort -rn | head -${TOP:-25}
for f in /tmp/vdev/err.*; do grep -a "^EXIT" $f; grep -aE "ERROR: Addr|runtime error|Assertion|terminate|memory still" $f | cut -c1-200 | head -2; grep -aE "#[0-9]+ .*(/repo/|harness)" $f | grep -avE "bits/|__gnu" | sed 's/0x[0-9a-f]* in//; s/(.*) / /' | cut -c1-160 | head -${FR:-2}; done; done
