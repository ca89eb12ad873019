#!/bin/bash
for c in "$@"; do W=${W:-600} python3 /verif/sa/run.py $c -v -q --notes 2>&1 | grep -v "^undecided\|^VIOLATION\|^  " | cut -c1-${CUT:-500}; done
