#!/bin/bash
# Builds every harness once (each check also rebuilds what it needs).
set -u
V=$(cd "$(dirname "$0")" && pwd)
export CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8
unset MAKEFLAGS CXXFLAGS CFLAGS CPPFLAGS LDFLAGS
B=$V/build
source "$V/harness/build_lib.sh"
mkdir -p "$V/evidence"
build_targets all sim
