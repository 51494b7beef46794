#!/bin/bash
# tails.sh CXX [chars] : the last lines of each violation report
for f in /verif/replays/$1/v*/REPORT.txt; do echo "== $(sed -n 2p $f | cut -c1-60)"; tail -n 3 $f | cut -c1-${2:-400}; done
