#!/bin/bash
# check.sh ID [quick|thorough]: build against /repo, then explore.
cd "$(dirname "${BASH_SOURCE[0]}")"
. ./env.sh
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
./build.sh || exit 3
exec .build/target/debug/mc check "$id"
