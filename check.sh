#!/bin/bash
# check.sh ID [quick|thorough]: builds from /repo's working tree and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
also=
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in
P08) kind=sched ;;
*) kind=sim ;;
esac
[ "$id" = P06 ] && also=cli
[ "$id" = P15 ] && also=macros
"$here/build.sh" $kind $also || exit 2
exec "$here/target/$kind/release/fajt-sim" check "$id" --tier "$tier" \
    --evidence "$here/evidence/$id.json" --replays "$here/replays"
