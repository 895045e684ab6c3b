#!/bin/bash
# Usage: check.sh <property id> [thorough]      (environment: VERIF_SEED, VERIF_TIER=quick|thorough)
# Builds what the check needs from /repo's working tree and runs it.
# Exit 0: held on everything explored; 1: violation; 2: no verdict.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
id="$1"
[ "$2" = thorough ] && export VERIF_TIER=thorough
mkdir -p target evidence
. ./build.sh || exit 2
case "$id" in
setup) build_harness && build_real && build_asan && build_tsan && build_miri ;;
C30)
    build_real || exit 2
    exec target/real/release/realkdf
    ;;
C11) build_harness && build_asan && build_miri || exit 2 ;;
C28) build_harness && build_tsan && build_miri || exit 2 ;;
*) build_harness || exit 2 ;;
esac
[ "$id" = setup ] && exit $?
exec target/h/release/vmon check "$id"
