#!/bin/bash
# check.sh <property>...: builds the analyser (incrementally) and decides the properties from /repo's source.
here=$(cd "$(dirname "$0")" && pwd)
export VSTAT_VERIF="${VSTAT_VERIF:-$here}" VSTAT_REPO="${VSTAT_REPO:-/repo}"
bash "$here/setup.sh" >&2 || {
    for id in "$@"; do echo "analyser did not build"; echo "VIOLATION property=$id replay=$here/setup.sh"; done
    exit 1
}
exec "$here/bin/vstat" "$@"
