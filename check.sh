#!/bin/bash
# check.sh ID [extra flags]: symbolic check of one property against /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
if [ ! -x "$here/bin/symgo" ] || [ -n "$(find "$here/engine" -newer "$here/bin/symgo" -name '*.go' -print -quit)" ]; then
	bash "$here/setup.sh" >&2 || exit 3
fi
. /opt/vp/env.sh
cd "$here"
exec "$here/bin/symgo" check -id "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" -repo /repo "$@"
