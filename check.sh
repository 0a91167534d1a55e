#!/bin/bash
# check.sh <property> [--replay FILE] [--scenario NAME] [--tier quick|thorough]
# Rebuilds the checker of one property from /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export RUST_BACKTRACE=0
export VERIF_DIR="$PWD"
id="$1"
shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tier="${VERIF_TIER:-quick}"

case "$id" in
C02 | C10) bin=ot ;;
C01 | C03) bin=peers ;;
C04 | C19) bin=guard ;;
C05) bin=persist ;;
C14 | C16 | C17 | C24) bin=proc ;;
C13 | C15 | C27) bin=net ;;
C06 | C08 | C11 | C21) bin=disk ;;
C07 | C09 | C12 | C18 | C20) bin=editors ;;
C22 | C25) bin=nvim ;;
C23 | C26) bin=vscode ;;
C28) bin=marked ;;
*)
    echo "no check for $id" >&2
    exit 2
    ;;
esac

. ./build.sh
log="$(mktemp)"
if ! build_checker "$bin" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the checker of $id cannot be built" >&2
    exit 2
fi
case "$id" in
C05 | C12 | C14 | C15 | C16 | C17 | C18 | C21 | C24 | C27 | C28) needs_daemon=1 ;;
*) needs_daemon= ;;
esac
if [ -n "$needs_daemon" ] && ! build_daemon >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the program cannot be built" >&2
    exit 2
fi
if [ "$bin" = persist ] && ! build_crash >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the library of $id cannot be built" >&2
    exit 2
fi
if [[ "$bin" = vscode || "$bin" = marked ]] && ! build_extension >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the extension cannot be built" >&2
    exit 2
fi
rm -f "$log"
exec "$VERIF_DIR/mc/target/debug/$bin" "$id" --tier "$tier" "$@"
