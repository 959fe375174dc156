#!/bin/bash
# ./check.sh <property>: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
[ -x bin/govc ] || ./setup.sh >/dev/null || exit 2
exec bin/govc -check "$1" -repo "${VERIF_REPO:-/repo}"
