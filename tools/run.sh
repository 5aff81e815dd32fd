#!/bin/bash
# usage: run.sh CHECK [scale] [maxviol] [seed]: runs a check and summarises what it reports
c=$1; rm -f /verif/evidence/replays/$c-*; VERIF_SEED=${4:-1} VH_MAXV=${3:-8} VH_SCALE=${2:-1} timeout ${T:-600} /verif/target/release/vh check $c > /tmp/$c.log 2>&1
grep "class:" /tmp/$c.log | cut -c1-160 | sort | uniq -c | sort -rn | head -${N:-15}
grep "evaluations" /tmp/$c.log
