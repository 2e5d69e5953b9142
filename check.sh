#!/bin/bash
# bash /verif/check.sh <property-id> <quick|thorough> [--only CASE-KEY]
# Builds the harness of one property from /repo's working tree and runs it.
# exit 0: held on everything explored; exit 1: VIOLATION line printed.
set -u
ID=${1:?property id}; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift || true
V=$(cd "$(dirname "$0")" && pwd)
export CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8 VERIF_DIR=$V
unset MAKEFLAGS CXXFLAGS CFLAGS CPPFLAGS LDFLAGS
B=$V/build
source "$V/harness/build_lib.sh"
mkdir -p "$V/evidence" "$V/replays"
rm -f "$V/evidence/$ID.json"
SRC="$V/harness/$ID.cpp"; TARGETS="$ID"; RUN="$B/$ID"
if [ -f "$V/harness/$ID.py" ]; then
  # scripts are checked by a Python harness; nothing but the simulator is built
  SRC="$V/harness/$ID.py"; TARGETS=""; RUN="/opt/veriftools/pyvenv/bin/python $SRC"
  export PYTHONPATH="$V/harness:$V/harness/py_stub" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
fi
grep -qsE "^(//|#) *needs: *sim" "$SRC" && TARGETS="$TARGETS sim"
if [ -n "$TARGETS" ] && ! build_targets $TARGETS; then
  echo "check $ID: build failed" >&2
  exit 3
fi
SCRATCH=$(mktemp -d /tmp/verif_scratch.XXXXXX)
trap 'rm -rf "$SCRATCH"' EXIT
cd "$SCRATCH" || exit 3
$RUN --tier "$TIER" --seed "${VERIF_SEED:-1}" --scratch "$SCRATCH" "$@"
rc=$?
cd /
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && [ $rc -ne 2 ]; then
  R="$V/replays/$ID-crash.txt"
  echo "harness $ID ended with status $rc" > "$R"
  echo "VIOLATION property=$ID replay=$R"
  rc=1
fi
exit $rc
