#!/bin/bash
# replay.sh FILE: runs a replay file against the current tree of /repo.
f=$(realpath "$1") || exit 3
cd "$(dirname "$0")" || exit 3
. ./env.sh
drv=$(mktemp -d "${TMPDIR:-/tmp}/verifdrv-XXXXXX") || exit 3
trap 'rm -rf "$drv"' EXIT
(cd driver && go build -o "$drv/verifdriver" .) || exit 3
VERIF_DIR=$PWD "$drv/verifdriver" replay "$f"
