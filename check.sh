#!/bin/bash
# check.sh <property> [--replay FILE | --rel NAME ...] : builds what the property needs from /repo and runs its check.
cd /verif || exit 3
P=$1; shift
. /verif/env.sh
G=$(awk -v p="$P" '$1==p{print $2}' /verif/groups.txt)
X=$(awk -v p="$P" '$1==p{for(i=3;i<=NF;i++) print $i}' /verif/groups.txt)
[ -n "$G" ] || { echo "no such property: $P" >&2; exit 3; }
FLAV=
if [ "$G" = omp ]; then FLAV=tsan; B=$B/tsan; fi
T="$B/bin/t_$G"; for x in $X; do T="$T $B/bin/$x"; done
mkdir -p "$B"
if ! flock "$B/lock" make -s -j8 FLAV=$FLAV B="$B" REPO="$REPO" $T > "$B/build-$P.log" 2>&1; then
	tail -40 "$B/build-$P.log" >&2; echo "build failed" >&2; exit 3
fi
exec "$B/bin/t_$G" --prop "$P" "$@"
