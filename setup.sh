#!/bin/bash
# Nothing needs to be installed: every check builds its own checker. This only warms the build.
set -u
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$PWD"
. ./build.sh
build_checker && build_daemon
