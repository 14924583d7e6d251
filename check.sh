#!/bin/bash
# usage: check.sh <property> [quick|thorough]   (rebuilds the harness against /repo's working tree, then runs one check)
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
R="$(cd "$(dirname "$0")" && pwd)"
case $P in
  C05|C06) VARIANTS=sched;;
  *) VARIANTS=plain;;
esac
. "$R/build.sh" || { echo "BUILD ERROR" >&2; exit 2; }
export JXLMC_ROOT="$R"
exec "$BIN" check "$P" "$T"
