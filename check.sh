#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >&2 || exit 2
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier
exec "$here/bin/dupicheck" -repo /repo -verif "$here" -prop "$1" -tier "$tier"
