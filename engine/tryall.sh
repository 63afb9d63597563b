#!/bin/bash
# development: run every entry of a unit
cd /verif; for e in $(grep -oP '^HARNESS\(\K\w+' witness/$1); do if [[ -z "$2" || $e == *$2* ]]; then o=$(python3 engine/try1.py $1 $e $3 $4 2>&1); r=$?; echo "$o" | grep -v "\[\([0-9]*\), \1\]" | grep -v "^fix.*'heads': 0," | cut -c1-700; [[ $r == 7 ]] && exit 1; fi; done; true
