#!/bin/bash
# run.sh ID [--tier quick|thorough] [--seed N] [--replay FILE] [--sub NAME]
# Rebuilds the extensions from /repo's working tree, then runs check ID.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
. /opt/vp/env.sh
mkdir -p /repo/build/vp "$MPLCONFIGDIR"
blog=$(mktemp)
if ! ( cd /repo && python /opt/vp/buildext.py ) > "$blog" 2>&1; then
    echo "ERROR: building the extensions failed"; tail -30 "$blog"; rm -f "$blog"; exit 2
fi
rm -f "$blog"
export VERIF_LIB=$here/lib
exec python -W ignore "$here/checks/$id.py" "$@"
