#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off
[ -n "$2" ] && export VERIF_TIER="$2"
[ -x bin/gv ] || bash setup.sh || exit 2
exec bin/gv check -repo /repo -verif "$PWD" -prop "$1"
