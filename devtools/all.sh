#!/bin/bash
# every check on the current tree, one line each
cd "$(dirname "$0")/.."
for i in $(seq 1 20); do p=C$(printf %02d $i); timeout 900 python3-vt -B check.py $p "$@" > /tmp/all.$p 2>&1; rc=$?; echo "$p rc=$rc $(grep -c VIOLATION /tmp/all.$p) $(tail -1 /tmp/all.$p)"; done
