#!/bin/bash
# replay.sh FILE: builds from /repo's working tree and re-executes a replay file.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 2
cd "$here" || exit 2
case $(grep -o '"property": *"P[0-9]*"' "$file" | grep -o 'P[0-9]*') in
P08) kind=sched ;;
P06) kind=sim also=cli ;;
P15) kind=sim also=macros ;;
*) kind=sim ;;
esac
"$here/build.sh" $kind $also || exit 2
exec "$here/target/$kind/release/fajt-sim" replay "$file"
