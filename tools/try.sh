#!/bin/bash
# tools/try.sh WORKER VARIANT COUNT SEED [EXTRA]: builds and runs one worker on 8 processes, sums its counters
cd /verif; exe=$(python3 -c "
import sys; sys.path.insert(0,'/verif/run'); from vfl import build; print(build({('$2','$1')})[('$2','$1')])") || exit 1
s=$(date +%s); for k in 0 1 2 3 4 5 6 7; do $exe --start $k --stride 8 --count $3 --seed $4 --mode "$MODE" --salt $2 --extra "$5" > /tmp/m$k.txt 2>&1 & done; wait; e=$(date +%s)
cat /tmp/m?.txt | grep "^V" | cut -c1-${W:-260} | head -${H:-12}; echo "V: $(cat /tmp/m?.txt | grep -c '^V')  seconds: $((e-s))"; cat /tmp/m?.txt | grep "^V" | awk '{print $3}' | sort | uniq -c
python3 /verif/tools/sum.py
