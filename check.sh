#!/bin/bash
# check.sh PROPERTY [quick|thorough] [further qv flags]
# Encodes /repo's current working tree and decides one property.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift 2 2>/dev/null || shift $#
cd "$here" || exit 2
newest=$(ls -t engine/*.go engine/go.mod 2>/dev/null | head -1)
if [ ! -x bin/qv ] || [ "$newest" -nt bin/qv ]; then bash setup.sh || exit 2; fi
exec bin/qv -property "$prop" -tier "$tier" "$@"
