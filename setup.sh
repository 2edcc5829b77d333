#!/bin/bash
# Builds the driver and the simulator once, which fills the build cache.
cd "$(dirname "$0")" || exit 3
. ./env.sh
drv=$(mktemp -d "${TMPDIR:-/tmp}/verifdrv-XXXXXX") || exit 3
trap 'rm -rf "$drv"' EXIT
(cd driver && go vet . && go build -o "$drv/verifdriver" .) || exit 3
d=$(VERIF_DIR=$PWD "$drv/verifdriver" build C01) || exit 3
rm -rf "$d"
