#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
. "$here/setup.sh" || exit 2
exec "$here/bin/gover" -verif "$here" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-quick}"
