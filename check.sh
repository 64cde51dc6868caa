#!/bin/bash
# check.sh <property>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./bin/govc -prop "$1" -repo /repo -contracts "$PWD/contracts" -verif "$PWD" -timeout "${VERIF_SOLVER_S:-60}"
