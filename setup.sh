#!/bin/bash
# Compiles the code under test and all harnesses once, to warm the compiler cache. Every check rebuilds by itself.
cd /verif || exit 1
. /verif/env.sh
mkdir -p "$B"
T=$(awk '$2!="omp"{print "'$B'/bin/t_" $2; for(i=3;i<=NF;i++) print "'$B'/bin/" $i}' groups.txt | sort -u)
flock "$B/lock" make -s -j8 B="$B" REPO="$REPO" $T > "$B/setup.log" 2>&1 || { tail -40 "$B/setup.log"; exit 1; }
mkdir -p "$B/tsan"
flock "$B/tsan/lock" make -s -j8 FLAV=tsan B="$B/tsan" REPO="$REPO" "$B/tsan/bin/t_omp" > "$B/setup-tsan.log" 2>&1 || { tail -40 "$B/setup-tsan.log"; exit 1; }
echo "setup done"
