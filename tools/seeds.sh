#!/bin/bash
# tools/seeds.sh "2 3 4": all checks at other seeds; prints what is not quiet
cd "$(dirname "$0")/.."
for s in $1; do for i in $(seq -w 1 25); do
  VERIF_SEED=$s timeout 1800 /opt/venv/bin/python run.py C$i >/tmp/seeds.$s.C$i.log 2>&1 \
    || { echo "seed $s C$i rc $?"; tail -3 /tmp/seeds.$s.C$i.log; }
done; done
