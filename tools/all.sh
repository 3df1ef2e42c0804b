#!/bin/sh
# all.sh [seed] [tier] : every check, one line each
cd "$(dirname "$0")/.."
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33; do
  VERIF_SEED=${1:-1} VERIF_TIER=${2:-quick} timeout ${3:-900} python3 harness/check.py C$i > /tmp/all.$$ 2>&1; rc=$?
  [ $rc = 0 ] || { echo "C$i seed ${1:-1} rc=$rc"; grep -v KNOWN /tmp/all.$$ | cut -c1-500; }
done; rm -f /tmp/all.$$; echo done seed ${1:-1}
