#!/bin/bash
# check.sh ID: decides one property on the current tree of /repo (or $VERIF_REPO).
# exit 0: held; 1: violation (with a VIOLATION line); 3: the check itself failed.
cd "$(dirname "$0")" || exit 3
. ./env.sh
drv=$(mktemp -d "${TMPDIR:-/tmp}/verifdrv-XXXXXX") || exit 3
trap 'rm -rf "$drv"' EXIT
(cd driver && go build -o "$drv/verifdriver" .) || exit 3
VERIF_DIR=$PWD "$drv/verifdriver" check "$1"
