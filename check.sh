#!/bin/bash
# check.sh <property> <tier>: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
[ -x engine/symgo ] || ./setup.sh quick >&2 || exit 2
exec ./engine/symgo -property "$1" -tier "$2"
