#!/bin/bash
# summary of the replays of a check: showv.sh C04 [chars]
cd /verif/replays/$1 2>/dev/null || exit
for f in v*/REPORT.txt; do echo "== $f"; sed -n 2p $f | cut -c1-200; grep -a "^observed\|^events\|^expected\|rejected\|rror:" $f|head -4 | cut -c1-${2:-300}; done
