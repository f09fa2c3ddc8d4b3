#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the explorer with /repo's current tree, then decides the property.
cd "$(dirname "$0")" || exit 2
bash mc/build.sh || exit 2
exec mc/target/x86_64-unknown-linux-gnu/release/mc check "$1" "${2:-${VERIF_TIER:-quick}}"
