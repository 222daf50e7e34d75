#!/bin/bash
# rp.sh GROUP: trace of the minimised replay of the last exploration by exb.sh
for k in 0 1 2 3 4 5 6 7; do R=$(grep -ao '"replay": "[^"]*"' /tmp/exb.$k | head -1 | cut -d'"' -f4); [ -n "$R" ] && break; done
/verif/build/$1/lmsim replay $R --trace 1 2>/dev/null
