#!/bin/bash
# check.sh ID          decide one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE run a recorded violation again
. "$(dirname "${BASH_SOURCE[0]}")/build.inc.sh"
build_all || exit 3
case "$1" in
  replay) vsim replay "$2" ;;
  trace) shift; vsim trace "$@" ;;
  *) vsim check "$1" ;;
esac
