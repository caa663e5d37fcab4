#!/bin/bash
# every check, one after the other
cd "$(dirname "$0")"
for p in ${*:-F01 F02 F03 F04 L01 L02 L03 L04 L05 P01 P02 P03 P04 P05 C01 C02 C03 C04 C05 C06 C07 G01 G02 G03}; do
  s=$(date +%s); o=$(python3 vp.py $p 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s"; echo "$o" | tail -${LINES_SHOWN:-4} | cut -c1-600 | sed 's/^/    /'
done
